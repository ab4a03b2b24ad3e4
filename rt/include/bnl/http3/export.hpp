#pragma once
#define BNL_HTTP3_EXPORT
#define BNL_HTTP3_NO_EXPORT
