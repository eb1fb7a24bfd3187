// Drives the real broker_handler and prints what it does.
#pragma once
#include "config/broker_config.h"
#include "handlers/broker_handler.h"
#include "broker_connect.h"
#include "queuing/multi_queue_manager.h"
#include "queuing/single_queue_manager.h"
#include "worker_registry.h"
#include <cstdio>
#include <cstdlib>
#include <yaml-cpp/yaml.h>

typedef std::vector<std::string> V;
struct Broker {
	std::shared_ptr<worker_registry> workers = std::make_shared<worker_registry>();
	std::shared_ptr<queue_manager_interface> queue;
	std::shared_ptr<broker_handler> handler;
	std::vector<message_container> out; // since the last clear()
	explicit Broker(bool multi, const std::string &settings = "{}")
	{
		if (multi) queue = std::make_shared<multi_queue_manager>();
		else queue = std::make_shared<single_queue_manager<>>();
		handler = std::make_shared<broker_handler>(
			std::make_shared<broker_config>(YAML::Load("workers: " + settings)), workers, queue, nullptr);
	}
	void msg(const std::string &key, const std::string &who, const V &data)
	{
		out.clear();
		handler->on_request(message_container(key, who, data), [this](const message_container &m) { out.push_back(m); });
	}
	void worker(const std::string &who, const V &data) { msg(broker_connect::KEY_WORKERS, who, data); }
	void client(const std::string &who, const V &data) { msg(broker_connect::KEY_CLIENTS, who, data); }
	void tick(int ms) { msg(broker_connect::KEY_TIMER, "", {std::to_string(ms)}); }
	/** messages of the last event to a socket (and peer) */
	std::vector<V> to(const std::string &key, const std::string &who = "*") const
	{
		std::vector<V> r;
		for (auto &m : out)
			if (m.key == key && (who == "*" || m.identity == who)) r.push_back(m.data);
		return r;
	}
	std::vector<V> workers_got(const std::string &who = "*") const { return to(broker_connect::KEY_WORKERS, who); }
	std::vector<V> clients_got() const { return to(broker_connect::KEY_CLIENTS); }
	std::vector<V> monitor_got() const { return to(broker_connect::KEY_MONITOR); }
	std::vector<V> frontend_got() const { return to(broker_connect::KEY_STATUS_NOTIFIER); }
};
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "demo: line %d: not true: %s\n", __LINE__, #c); exit(1); } } while (0)
