// Common to all harnesses.
#pragma once
#include "sym.h"
#ifndef NO_LOGGER
#include "logger.h"
#define BODY(name) static void body_##name(); extern "C" void name() { install_logger(); body_##name(); } static void body_##name()
#endif
#ifdef SYM_NATIVE
struct harness_reg { harness_reg(const char *n, void (*f)()); };
#define ENTRY(name) extern "C" void name(); static harness_reg reg_##name(#name, name); BODY(name)
#else
#define ENTRY(name) BODY(name)
#endif
