#include "evp.h"
