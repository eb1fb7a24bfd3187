// src/broker_core.cpp is written for spdlog 0.x; this maps the three calls it makes to spdlog 1.x.
#pragma once
#include <chrono>
#include <memory>
#include <spdlog/sinks/rotating_file_sink.h>
#include <spdlog/spdlog.h>
#include <string>
namespace spdlog {
enum class async_overflow_policy { block_retry, discard_log_msg };
template <typename D> inline void set_async_mode(size_t, async_overflow_policy, std::nullptr_t, D)
{
}
inline std::shared_ptr<logger> create(const std::string &name, std::shared_ptr<sinks::rotating_file_sink_mt> s)
{
	auto l = std::make_shared<logger>(name, s);
	l->flush_on(level::trace); // stands for flushing every second
	return l;
}
} // namespace spdlog
