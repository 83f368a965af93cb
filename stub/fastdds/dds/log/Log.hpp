// Stand-in for Fast DDS 3.x (not installed here): log messages are formatted into a
// sink nobody reads; entries queued through the API reach the registered consumers.
#pragma once
#include <cstdint>
#include <iostream>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <fastdds/dds/core/ReturnCode.hpp>
#include <fastdds/dds/core/policy/QosPolicies.hpp>

namespace eprosima { namespace fastdds { namespace dds {

struct LogSink
{
    template <typename T>
    LogSink& operator <<(const T&) { return *this; }
    LogSink& operator <<(std::ostream& (*)(std::ostream&)) { return *this; }
};

class LogConsumer;

class Log
{
public:
    enum Kind { Error, Warning, Info };
    struct Context { const char* filename; int line; const char* function; const char* category; };
    struct Entry { std::string message; Log::Context context; Log::Kind kind; std::string timestamp; };

    static std::vector<std::unique_ptr<LogConsumer>>& consumers();
    static std::mutex& mtx() { static std::mutex m; return m; }
    static void RegisterConsumer(std::unique_ptr<LogConsumer>&& consumer);
    static void ClearConsumers();
    static void QueueLog(const std::string& message, const Log::Context& context, Log::Kind kind);
    static void Flush() {}
    static void KillThread() {}
    static Kind& verbosity() { static Kind k = Kind::Error; return k; }
    static void SetVerbosity(Kind k) { verbosity() = k; }
    static Kind GetVerbosity() { return verbosity(); }
};

class LogConsumer
{
public:
    virtual ~LogConsumer() = default;
    virtual void Consume(const Log::Entry&) = 0;
protected:
    void print_timestamp(std::ostream& s, const Log::Entry& e, bool) const { s << e.timestamp; }
    void print_header(std::ostream& s, const Log::Entry&, bool) const { s << " "; }
    void print_message(std::ostream& s, const Log::Entry& e, bool) const { s << e.message; }
    void print_context(std::ostream& s, const Log::Entry& e, bool) const { s << e.context.category; }
    void print_new_line(std::ostream& s, bool) const { s << std::endl; }
};

inline std::vector<std::unique_ptr<LogConsumer>>& Log::consumers()
{ static std::vector<std::unique_ptr<LogConsumer>> c; return c; }
inline void Log::RegisterConsumer(std::unique_ptr<LogConsumer>&& c)
{ std::lock_guard<std::mutex> g(mtx()); consumers().push_back(std::move(c)); }
inline void Log::ClearConsumers()
{ std::lock_guard<std::mutex> g(mtx()); consumers().clear(); }
inline void Log::QueueLog(const std::string& m, const Log::Context& c, Log::Kind k)
{ std::lock_guard<std::mutex> g(mtx()); for (auto& x : consumers()) { x->Consume(Log::Entry{m, c, k, ""}); } }

}}}

#ifdef VP_LOG_QUEUE
#define VP_LOG_(cat, msg, kind) { std::stringstream vp_ss_; vp_ss_ << msg; \
        ::eprosima::fastdds::dds::Log::QueueLog(vp_ss_.str(), {__FILE__, __LINE__, __func__, #cat}, kind); }
#else
#define VP_LOG_(cat, msg, kind) { ::eprosima::fastdds::dds::LogSink vp_log_sink_; vp_log_sink_ << msg; }
#endif
#define EPROSIMA_LOG_INFO(cat, msg) VP_LOG_(cat, msg, ::eprosima::fastdds::dds::Log::Info)
#define EPROSIMA_LOG_WARNING(cat, msg) VP_LOG_(cat, msg, ::eprosima::fastdds::dds::Log::Warning)
#define EPROSIMA_LOG_ERROR(cat, msg) VP_LOG_(cat, msg, ::eprosima::fastdds::dds::Log::Error)
#define logInfo(cat, msg) EPROSIMA_LOG_INFO(cat, msg)
#define logWarning(cat, msg) EPROSIMA_LOG_WARNING(cat, msg)
#define logError(cat, msg) EPROSIMA_LOG_ERROR(cat, msg)
