// C24: Reloading the file cache is atomic to readers
#include "mc.hpp"
#include "sched.hpp"
#define FILEZOO_POINT sched::point(sched::File);
#include "zoo.hpp"
#include "filezoo.hpp"
#include "httpzoo.hpp"
using namespace Bomba;
using namespace filezoo;

// What was done, with the times when it began and ended
struct Event {
	enum What { Get, Put, Erase, Reload, Reset, Generate } what;
	std::string name, content; // Content of what was put or obtained
	bool found = false;
	int began = 0, ended = 0;
	bool type = true;
};
struct Model {
	std::map<std::string, std::string> disk, cached, generated;
	bool apply(const Event& it) {
		switch (it.what) {
		case Event::Put: disk[it.name] = it.content; return true;
		case Event::Erase: disk.erase(it.name); return true;
		case Event::Reload: cached = disk; return true;
		case Event::Reset: cached = disk; generated.clear(); return true;
		case Event::Generate: generated[it.name] = it.content; return true;
		case Event::Get: {
			std::string name = it.name.empty() ? "index.html" : it.name;
			auto found = generated.find(name);
			if (found != generated.end()) return it.found && it.content == found->second;
			found = cached.find(name);
			if (found != cached.end()) return it.found && it.content == found->second;
			return !it.found;
		}
		}
		return false;
	}
};
// If the results are possible in some order respecting the times
static bool possible(const Model& model, const std::vector<Event>& events, unsigned done) {
	if (done == (1u << events.size()) - 1) return true;
	for (size_t i = 0; i < events.size(); i++) {
		if (done >> i & 1) continue;
		bool first = true;
		for (size_t j = 0; j < events.size(); j++)
			if (!(done >> j & 1) && j != i && events[j].ended < events[i].began) first = false;
		if (!first) continue;
		Model next = model;
		if (next.apply(events[i]) && possible(next, events, done | 1u << i)) return true;
	}
	return false;
}
static std::string text(const Event& it) {
	static const char* names[] = {"get", "put", "erase", "reload", "reset", "generate"};
	std::string made = mc::fmt("%d-%d ", it.began, it.ended) + names[it.what] + " " + it.name;
	if (it.what == Event::Get) made += it.found ? " = " + mc::quoted(it.content, 30) : " not found";
	return made;
}

struct Switching : Answer { // Can be switched in the middle of sending
	void writeUnknownSize(std::string_view resourceType, Callback<void(GeneralisedBuffer&)> filler) override {
		written++;
		sched::point(sched::Point);
		{
			sched::Quiet quiet;
			type = resourceType;
		}
		auto append = [this] (std::span<const char> chunk) {
			sched::point(sched::File);
			sched::Quiet quiet;
			body.append(chunk.data(), chunk.size());
		};
		NonOwningStreamingBuffer<40> writer(append);
		filler(writer);
		writer.flush();
	}
};

struct World {
	Scratch scratch;
	std::string root = scratch.path + "/root", aside = scratch.path + "/aside";
	std::unique_ptr<CachingFileServer> server;
	std::map<std::string, std::string> present;
	std::vector<std::vector<Event>> events; // For each thread
	World() { mkdir(root.c_str(), 0755); }

	static std::string content(const std::string& name, int version) { return mc::fmt("version %d of ", version) + name + std::string(20 + version, char('0' + version)); }
	void place(const std::string& name, const std::string& content) { // Replaces it at once
		scratch.put("aside", content);
		rename(aside.c_str(), (root + "/" + name).c_str());
	}
	template <typename F>
	void act(int thread, Event event, const F& doing) {
		Event* noted;
		{
			sched::Quiet quiet;
			events[thread].push_back(std::move(event));
			noted = &events[thread].back();
		}
		noted->began = sched::time();
		doing(*noted);
		noted->ended = sched::time();
	}
	void put(int thread, const std::string& name, int version) {
		sched::point(sched::Point);
		act(thread, {Event::Put, name, content(name, version)}, [&] (Event& event) { sched::Quiet quiet; place(name, event.content); });
	}
	void erase(int thread, const std::string& name) {
		sched::point(sched::Point);
		act(thread, {Event::Erase, name}, [&] (Event&) { sched::Quiet quiet; scratch.erase("root/" + name); });
	}
	void reload(int thread) { act(thread, {Event::Reload}, [&] (Event&) { server->reload(); }); }
	void reset(int thread) { act(thread, {Event::Reset}, [&] (Event&) { server->reset(); }); }
	void generate(int thread, const std::string& name, int version, bool vector) {
		act(thread, {Event::Generate, name, content(name, version)}, [&] (Event& event) {
			if (vector) server->addGeneratedFile(name, std::vector<char>(event.content.begin(), event.content.end()));
			else server->addGeneratedFile(name, event.content);
		});
	}
	void get(int thread, const std::string& name) {
		act(thread, {Event::Get, name}, [&] (Event& event) {
			Switching answer;
			std::string path = "/" + name;
			event.found = server->get(path, answer);
			sched::Quiet quiet;
			event.content = answer.body;
			if (event.found && (!answer.known || answer.size != int64_t(answer.body.size()) || answer.written != 1)) event.type = false;
			if (event.found && answer.type != (name == "g.json" ? "application/json" : name.ends_with(".txt") ? "application/txt" : "text/html")) event.type = false;
		});
	}
	void download(int thread, const std::string& name) { // Like get(), but through HTTP
		act(thread, {Event::Get, name}, [&] (Event& event) {
			HttpServer<> http(*server);
			auto session = http.getSession();
			std::string request = "GET /" + name + " HTTP/1.1\r\n\r\n", response;
			session.respond(std::span<char>(request), [&] (std::span<const char> chunk) {
				sched::point(sched::Point);
				sched::Quiet quiet;
				response.append(chunk.data(), chunk.size());
			});
			sched::Quiet quiet;
			httpzoo::ResponseParser parsed(response);
			if (!parsed.problem.empty() || parsed.responses.size() != 1) { event.type = false; return; }
			event.found = parsed.responses[0].status == 200;
			if (event.found) event.content = parsed.responses[0].body;
		});
	}
};

struct Program {
	const char* name;
	void (*run)(World&, int thread);
	bool reads;
};
static const Program programs[] = {
	{"get f", [] (World& w, int t) { w.get(t, "f.txt"); }, true},
	{"get f twice", [] (World& w, int t) { w.get(t, "f.txt"); w.get(t, "f.txt"); }, true},
	{"get the root and the index", [] (World& w, int t) { w.get(t, ""); w.get(t, "index.html"); }, true},
	{"get g", [] (World& w, int t) { w.get(t, "g.json"); }, true},
	{"get n and f", [] (World& w, int t) { w.get(t, "n.txt"); w.get(t, "f.txt"); }, true},
	{"download f", [] (World& w, int t) { w.download(t, "f.txt"); }, true},
	{"put f, reload", [] (World& w, int t) { w.put(t, "f.txt", 2); w.reload(t); }, false},
	{"put the index, reload", [] (World& w, int t) { w.put(t, "index.html", 3); w.reload(t); }, false},
	{"put n, reload, erase n, reload", [] (World& w, int t) { w.put(t, "n.txt", 4); w.reload(t); w.erase(t, "n.txt"); w.reload(t); }, false},
	{"erase f, reload", [] (World& w, int t) { w.erase(t, "f.txt"); w.reload(t); }, false},
	{"generate g", [] (World& w, int t) { w.generate(t, "g.json", 5, false); }, false},
	{"generate g, get g", [] (World& w, int t) { w.generate(t, "g.json", 6, true); w.get(t, "g.json"); }, false},
	{"generate f", [] (World& w, int t) { w.generate(t, "f.txt", 7, true); }, false},
	{"generate the index", [] (World& w, int t) { w.generate(t, "index.html", 8, false); }, false},
	{"reset", [] (World& w, int t) { w.reset(t); }, false},
	{"get f, reload, get f", [] (World& w, int t) { w.get(t, "f.txt"); w.reload(t); w.get(t, "f.txt"); }, false},
};
constexpr int programCount = std::size(programs);

static World& world() {
	static World made;
	return made;
}
static void execute(const std::vector<int>& chosen, bool preparedG, bool bounded, bool withMemory) {
	World& w = world();
	std::string description;
	for (int it : chosen) description += (description.empty() ? "" : " | ") + std::string(programs[it].name);
	mc::describe(description + (preparedG ? ", g exists" : ""));
	Silence silence;
	Model model;
	for (std::string it : {"f.txt", "index.html"}) {
		model.cached[it] = World::content(it, 1);
		if (w.present[it] != model.cached[it]) w.place(it, model.cached[it]);
		w.present[it] = model.cached[it];
	}
	if (w.present.contains("n.txt")) w.scratch.erase("root/n.txt");
	w.present.erase("n.txt");
	model.disk = model.cached;
	w.server = std::make_unique<CachingFileServer>(w.root);
	if (preparedG) w.server->addGeneratedFile("g.json", model.generated["g.json"] = World::content("g.json", 1));
	w.events.assign(chosen.size() + 1, {});
	for (auto& it : w.events) it.reserve(10);
	std::vector<std::function<void()>> made;
	std::vector<std::string> escaped(chosen.size());
	for (size_t i = 0; i < chosen.size(); i++)
		made.push_back([i, &chosen, &w, &escaped] {
			try {
				programs[chosen[i]].run(w, int(i));
			} catch (std::exception& e) {
				sched::Quiet quiet;
				escaped[i] = e.what();
			}
		});
	sched::run(std::move(made), bounded, withMemory);
	for (auto& thread : w.events) for (auto& it : thread)
		if (it.what == Event::Put || it.what == Event::Erase) w.present[it.name] = "something else";
	if (mc::failed()) { w.server.release(); return; }
	for (auto& it : escaped) MC_CHECK(it.empty(), "exception", "an exception got out: " + it);
	// Afterwards
	for (std::string it : {"f.txt", "index.html", "", "g.json", "n.txt"}) w.get(int(chosen.size()), it);
	for (auto& it : w.events.back()) it.began = it.ended = 1000000 + int(&it - w.events.back().data());
	std::vector<Event> all;
	std::string happened;
	for (auto& thread : w.events) for (auto& it : thread) {
		MC_CHECK(it.type, "answer", "the answer to a download is wrong: " + text(it));
		all.push_back(it);
		happened += "; " + text(it);
	}
	w.server.reset();
	if (mc::failed()) return;
	MC_CHECK(possible(model, all, 0), "not-atomic", "the downloads do not correspond to any order of changes" + happened);
	mc::validated();
}

static std::vector<std::vector<int>> combinations(int threads) {
	std::vector<std::vector<int>> made;
	std::function<void(std::vector<int>, int)> add = [&] (std::vector<int> before, int from) {
		if (int(before.size()) == threads) {
			int readers = 0;
			for (int it : before) readers += programs[it].reads;
			if (readers < threads) made.push_back(before);
			return;
		}
		for (int i = from; i < programCount; i++) {
			auto next = before;
			next.push_back(i);
			add(next, i);
		}
	};
	add({}, 0);
	return made;
}
static const auto pairs = combinations(2), triples = combinations(3);

static bool aboutG(const std::vector<int>& chosen) { // or resets it
	for (int it : chosen) {
		std::string_view name = programs[it].name;
		if (name.find("get g") != name.npos || name.find("generate g") != name.npos || name == "reset") return true;
	}
	return false;
}

#ifndef PART
#define PART 0
#endif
#if PART == 0
static mc::Register allPairs{"two threads in all orders switched when locking and starting to send, with up to 2 (3 if thorough) switches elsewhere", int(pairs.size()), [] (int unit) {
	execute(pairs[unit], aboutG(pairs[unit]) && mc::choose(2), false, false);
}, 2};
static mc::Register someTriples{"three threads with up to 1 (2 if thorough) preemption at locks, files and sending", int(triples.size()), [] (int unit) {
	execute(triples[unit], aboutG(triples[unit]) && mc::choose(2), true, false);
}, 1};
static mc::Register withAllocations{"two threads with up to 1 (2 if thorough) preemption at locks, files, sending and allocations", int(pairs.size()), [] (int unit) {
	execute(pairs[unit], true, true, true);
}, 1};
#else
static mc::Register raced{"two threads checked for data races with up to 1 (2 if thorough) preemption at locks, files, sending and allocations", int(pairs.size()), [] (int unit) {
	execute(pairs[unit], aboutG(pairs[unit]) && mc::choose(2), true, true);
}, 1};
static mc::Register racedTriples{"three threads checked for data races, switched when they finish or wait", int(triples.size()), [] (int unit) {
	execute(triples[unit], aboutG(triples[unit]) && mc::choose(2), true, false);
}};
#endif
