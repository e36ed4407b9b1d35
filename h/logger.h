// Shared by the logger harnesses: the threads, clock, file system and formatter the logger sees are the models in rt/.
#pragma once
#include "thr/psx_pthread.h"
#include "thr/psx_atomic.h"
#include "hx.h"
#include "fsx.h"
#include <map>
#include <list>
#include <mutex>
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <ctime>
#include <fstream>
#include <functional>
#include <iomanip>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <condition_variable>
#include <unistd.h>
#if __cplusplus >= 202002L
#include <format>
#include <source_location>
#endif
inline int psx_gettid() { return 1000 + (int)psx_tid(); }
namespace std { int psx_vsnprintf(char* p, size_t n, const char* f, va_list a); }
using std::psx_vsnprintf;
extern "C" struct tm* psx_localtime_r(const time_t* t, struct tm* r); extern "C" struct tm* psx_gmtime_r(const time_t* t, struct tm* r);   // harness
#define localtime_r psx_localtime_r
#define gmtime_r psx_gmtime_r
#define gettid psx_gettid
#define vsnprintf psx_vsnprintf
#include <pluto/logger.hpp>
typedef pluto::logger Logger; typedef pluto::log_level Lv;
