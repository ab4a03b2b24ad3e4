// Stands in for the console logger (decided by C41) under the sample client.
#pragma once
#include <bnl/base/log.hpp>
namespace bnl { namespace log { class console : public base::log::api { public: explicit console(bool source = true) { (void) source; } protected: void log(base::log::level, const char *, const char *, int, const char *, const fmt::format_args &) const override {} }; } }
