// A frontend with a script: each entry is the answer to one connection.
#pragma once
#include <arpa/inet.h>
#include <cstdio>
#include <cstdlib>
#include <netinet/in.h>
#include <string>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <vector>
struct Http {
	int fd, port;
	std::vector<std::string> script, got;
	std::thread t;
	explicit Http(std::vector<std::string> s) : script(s)
	{
		sockaddr_in a{};
		a.sin_family = AF_INET;
		a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
		socklen_t n = sizeof a;
		fd = socket(AF_INET, SOCK_STREAM, 0);
		bind(fd, (sockaddr *) &a, sizeof a);
		getsockname(fd, (sockaddr *) &a, &n);
		port = ntohs(a.sin_port);
		listen(fd, 10);
		t = std::thread([this] { run(); });
	}
	~Http()
	{
		shutdown(fd, SHUT_RDWR);
		t.join();
		close(fd);
	}
	void run()
	{
		for (size_t k = 0;; k++) {
			int c = accept(fd, nullptr, nullptr);
			if (c < 0) return;
			std::string in;
			char b[4096];
			while (true) {
				size_t h = in.find("\r\n\r\n");
				if (h != std::string::npos) {
					size_t l = in.find("Content-Length: ");
					if (l == std::string::npos || in.size() >= h + 4 + (size_t) atoi(in.c_str() + l + 16)) break;
				}
				ssize_t r = recv(c, b, sizeof b, 0);
				if (r <= 0) break;
				in.append(b, r);
			}
			got.push_back(in);
			std::string o = "HTTP/1.1 " + (k < script.size() ? script[k] : "200 OK") + "\r\nContent-Length: 0\r\nConnection: close\r\n\r\n";
			send(c, o.data(), o.size(), MSG_NOSIGNAL);
			close(c);
		}
	}
};
