#pragma once
#define BNL_QUIC_EXPORT
#define BNL_QUIC_NO_EXPORT
