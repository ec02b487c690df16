// Logging has no observable effect for the properties: the real call sites are verified (including the
// evaluation of every argument), the logger itself is replaced.
#include "Logger.hpp"
namespace app
{
static unsigned long long loggerMem[32];
Logger& Logger::getInst() { return *reinterpret_cast<Logger*>(loggerMem); }
void Logger::setTaskLogLevel(LogTask, LogLevel) {}
LogLevel Logger::getTaskLogLevel(LogTask) const { return LogLevel::LD; }
void Logger::dispatch(char const*, LogLevel, LogTask, char const*, int) {}
}
