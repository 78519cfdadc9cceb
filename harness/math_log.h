// Receives what the code under test logs; only errors (failed internal assertions, unsupported operations) are enabled.
#pragma once
#include "all_sys.h"
namespace mm {
struct error_logger : public basiclog::log_logger {
	long lines; std::string last;
	error_logger() : lines(0) { enable_debug(false); enable_info(false); enable_warning(false); enable_error(true); }
	virtual void print(const std::string& s) { ++lines; last = s; }
};
inline error_logger*& logger() { static error_logger* l = NULL; return l; }
inline void setup_log() { logger() = new error_logger(); basiclog::log_logger::init_logger(logger()); }
inline void teardown_log() { basiclog::log_logger::release(); }
inline long log_lines() { return logger()->lines; }
inline std::string last_log() { return logger()->last; }
inline void clear_log() { logger()->lines = 0; }
}
