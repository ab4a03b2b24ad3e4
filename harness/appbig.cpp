// Datagrams as large as UDP allows.
#define AM_BYTES 65536
#define AM_COUNT 8
#define AM_FOUND 8
#include "appmany.cpp"
