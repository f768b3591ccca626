------------------------------- MODULE CodecF1 -------------------------------
EXTENDS CodecF
ChunksV == { <<>>, <<0>>, <<255>>, <<97, 200>>, <<1, 2, 254>>, <<127, 128, 3, 64>> }
TextsV == { <<>>, <<81>>, <<47, 43>>, <<122, 57, 10>>, <<32, 65, 66, 67>>, <<48, 103, 119, 81, 69>> }
==============================================================================
