// Minimal, inert stand-in for the parts of the opentelemetry-cpp API that ion uses (the real
// library is not available in this sandbox).  Nothing here observes or influences the server.
#pragma once
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <variant>
#include <vector>
namespace opentelemetry {
namespace nostd {
template <class T> using shared_ptr = std::shared_ptr<T>;
template <class T> using unique_ptr = std::unique_ptr<T>;
using string_view = std::string_view;
template <class T, std::size_t N = static_cast<std::size_t>(-1)> class span {
   public:
    span(T* p, std::size_t n) : p_(p), n_(n) {}
    template <std::size_t M> span(T (&a)[M]) : p_(a), n_(M) {}
    T* data() const { return p_; }
    std::size_t size() const { return n_; }
   private:
    T* p_; std::size_t n_;
};
}  // namespace nostd
namespace common {
struct SystemTimestamp { SystemTimestamp() = default; template <class T> SystemTimestamp(const T&) {} };
struct SteadyTimestamp { SteadyTimestamp() = default; template <class T> SteadyTimestamp(const T&) {} };
struct AttributeValue { AttributeValue() = default; template <class T> AttributeValue(const T&) {} };
}  // namespace common
namespace context { struct Context {}; struct Token {}; struct RuntimeContext {
    static Context GetCurrent() { return {}; } }; }
namespace trace {
enum class StatusCode { kUnset, kOk, kError };
enum class SpanKind { kInternal, kServer, kClient, kProducer, kConsumer };
struct TraceId {
    template <class S> void ToLowerBase16(S&& s) const { std::memset(&s[0], '0', 32); }
    bool IsValid() const { return false; }
};
struct SpanId {
    template <class S> void ToLowerBase16(S&& s) const { std::memset(&s[0], '0', 16); }
    bool IsValid() const { return false; }
};
struct SpanContext {
    bool IsValid() const { return false; }
    TraceId trace_id() const { return {}; }
    SpanId span_id() const { return {}; }
};
struct StartSpanOptions { common::SystemTimestamp start_system_time; common::SteadyTimestamp start_steady_time;
    SpanKind kind = SpanKind::kInternal; };
struct EndSpanOptions { common::SteadyTimestamp end_steady_time; };
class Span {
   public:
    virtual ~Span() = default;
    template <class V> void SetAttribute(nostd::string_view, const V&) {}
    void SetAttribute(nostd::string_view, const char*) {}
    void AddEvent(nostd::string_view) {}
    template <class V> void AddEvent(nostd::string_view, const V&) {}
    void AddEvent(nostd::string_view, std::initializer_list<std::pair<nostd::string_view, common::AttributeValue>>) {}
    void SetStatus(StatusCode, nostd::string_view = "") {}
    void UpdateName(nostd::string_view) {}
    void End(const EndSpanOptions& = {}) {}
    SpanContext GetContext() const { return {}; }
    bool IsRecording() const { return false; }
};
class Scope { public: Scope() = default; explicit Scope(const nostd::shared_ptr<Span>&) {} ~Scope() {} };
class Tracer {
   public:
    virtual ~Tracer() = default;
    nostd::shared_ptr<Span> StartSpan(nostd::string_view) { return std::make_shared<Span>(); }
    template <class O> nostd::shared_ptr<Span> StartSpan(nostd::string_view, const O&) { return std::make_shared<Span>(); }
    nostd::shared_ptr<Span> StartSpan(nostd::string_view,
        std::initializer_list<std::pair<nostd::string_view, common::AttributeValue>>, const StartSpanOptions& = {}) {
        return std::make_shared<Span>(); }
    static Scope WithActiveSpan(const nostd::shared_ptr<Span>& s) { return Scope(s); }
    static nostd::shared_ptr<Span> GetCurrentSpan() { return std::make_shared<Span>(); }
};
class TracerProvider {
   public:
    virtual ~TracerProvider() = default;
    nostd::shared_ptr<Tracer> GetTracer(nostd::string_view, nostd::string_view = "", nostd::string_view = "") {
        return std::make_shared<Tracer>(); }
};
class NoopTracerProvider : public TracerProvider {};
class Provider {
   public:
    static nostd::shared_ptr<TracerProvider> GetTracerProvider() { return std::make_shared<TracerProvider>(); }
    template <class T> static void SetTracerProvider(const T&) {}
};
}  // namespace trace
namespace exporter::otlp {
struct OtlpHttpExporterOptions { std::string url; };
struct Exporter {};
struct OtlpHttpExporterFactory { template <class... A> static std::unique_ptr<Exporter> Create(A&&...) { return std::make_unique<Exporter>(); } };
}  // namespace exporter::otlp
namespace sdk {
namespace resource { struct Resource { static Resource Create(std::map<std::string, std::string>) { return {}; } }; }
namespace trace {
struct SpanProcessor {};
struct SimpleSpanProcessorFactory { template <class... A> static std::unique_ptr<SpanProcessor> Create(A&&...) { return std::make_unique<SpanProcessor>(); } };
struct BatchSpanProcessorFactory { template <class... A> static std::unique_ptr<SpanProcessor> Create(A&&...) { return std::make_unique<SpanProcessor>(); } };
struct TracerProviderFactory { template <class... A> static std::unique_ptr<opentelemetry::trace::TracerProvider> Create(A&&...) { return std::make_unique<opentelemetry::trace::TracerProvider>(); } };
}  // namespace trace
}  // namespace sdk
}  // namespace opentelemetry
