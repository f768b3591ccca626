    case 1: return __cpu_to_be16(x); case 2: return __cpu_to_be32(x); case 3: return __cpu_to_be64(x);
    case 4: return __be16_to_cpu(x); case 5: return __be32_to_cpu(x); case 6: return __be64_to_cpu(x);
    case 7: return __cpu_to_le16(x); case 8: return __cpu_to_le32(x); case 9: return __cpu_to_le64(x);
    case 10: return __le16_to_cpu(x); case 11: return __le32_to_cpu(x); case 12: return __le64_to_cpu(x);
    case 13: return __constant_htonll(x); case 14: return __constant_htonl(x); case 15: return __constant_htons(x);
    case 16: return __constant_ntohll(x); case 17: return __constant_ntohl(x); case 18: return __constant_ntohs(x);
    case 19: return htonll(x); case 20: return ntohll(x);
