#include <stdint.h>
#include "fast/swab.h"
#include "fast/big-endian.h"
uint64_t be_conv(int m, uint64_t x) { switch (m) {
#include "wordop.inc"
    } return 0; }
