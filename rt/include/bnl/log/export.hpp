#pragma once
#define BNL_LOG_EXPORT
#define BNL_LOG_NO_EXPORT
