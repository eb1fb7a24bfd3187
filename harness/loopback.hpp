// Loopback addresses that nobody else uses, so that ports never run short (closed connections keep theirs for a minute).
#pragma once
#include <arpa/inet.h>
#include <atomic>
#include <cstdint>
#include <netinet/in.h>
#include <string>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

inline uint32_t loopback()
{
	static std::atomic<uint64_t> n{0};
	static int usable = -1;
	timespec t;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	uint64_t z = (uint64_t) getpid() * 0x9E3779B97F4A7C15ull + ++n * 0xD1B54A32D192ED03ull + (uint64_t) t.tv_nsec * 0x2545F4914F6CDD1Dull + t.tv_sec;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z ^= z >> 31;
	uint32_t a = (127u << 24) | ((1 + z % 250) << 16) | ((z >> 16) % 250 << 8) | (1 + (z >> 32) % 250);
	if (usable < 0) {
		sockaddr_in s{};
		s.sin_family = AF_INET;
		s.sin_addr.s_addr = htonl(a);
		int f = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
		usable = bind(f, (sockaddr *) &s, sizeof s) == 0;
		close(f);
	}
	return usable ? a : INADDR_LOOPBACK;
}
inline std::string ip_text(uint32_t a)
{
	return std::to_string(a >> 24) + "." + std::to_string((a >> 16) & 255) + "." + std::to_string((a >> 8) & 255) + "." + std::to_string(a & 255);
}
