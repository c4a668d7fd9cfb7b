// C23: Files are served byte for byte
#include "mc.hpp"
#include "zoo.hpp"
#include "filezoo.hpp"
#include "httpzoo.hpp"
using namespace Bomba;
using namespace filezoo;

enum Kind { Dynamic, Caching };
static const char* kindName(int kind) { return kind == Dynamic ? "DynamicFileServer" : "CachingFileServer"; }

static const std::map<std::string, std::string>& table() {
	static const std::map<std::string, std::string> made = {{"html", "text/html"}, {"js", "text/javascript"}, {"css", "text/css"}, {"json", "application/json"},
			{"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"png", "image/png"}, {"gif", "image/gif"}, {"ico", "image/vnd.microsoft.icon"}, {"svg", "image/svg+xml"},
			{"bmp", "image/bmp"}, {"ttf", "font/ttf"}, {"gz", "application/gzip"}, {"xml", "application/xml"}};
	return made;
}
static std::string typeOf(const std::string& name) {
	std::string last = name.substr(name.rfind('/') + 1); // npos + 1 is 0
	size_t dot = last.rfind('.');
	if (dot == std::string::npos || dot == 0 || dot + 1 == last.size()) return "application/octet-stream";
	std::string extension = last.substr(dot + 1);
	for (char& c : extension) if (c >= 'A' && c <= 'Z') c += 'a' - 'A';
	auto found = table().find(extension);
	return found == table().end() ? "application/" + extension : found->second;
}

// A pattern with everything, different at different offsets
static std::string pattern(size_t size, int variant = 0) {
	std::string made(size, '\0');
	for (size_t i = 0; i < size; i++) made[i] = char(i * 7 + i / 251 + i / 4096 * 3 + variant * 31);
	return made;
}

struct Expected {
	bool found = true;
	std::string type, body;
};
struct Fetched {
	std::vector<httpzoo::Response> responses;
	std::string rest;
	bool dropped = false;
};
static Fetched fetchAll(IHttpGetResponder& server, const std::vector<std::string>& paths) {
	Fetched made;
	Silence silence;
	HttpServer<> http(server);
	auto session = http.getSession();
	httpzoo::Fed<decltype(session)> fed;
	std::string stream;
	for (auto& it : paths) stream += "GET " + it + " HTTP/1.1\r\nHost: x\r\n\r\n";
	fed.feed(session, stream, {});
	if (mc::failed()) return made;
	httpzoo::ResponseParser parsed(fed.output);
	MC_CHECK(parsed.problem.empty(), "response", "malformed response: " + parsed.problem);
	made.responses = std::move(parsed.responses);
	made.rest = parsed.rest;
	made.dropped = fed.dropped;
	return made;
}
static std::string difference(const std::string& got, const std::string& wanted) {
	size_t i = 0;
	while (i < got.size() && i < wanted.size() && got[i] == wanted[i]) i++;
	return mc::fmt("%zu bytes instead of %zu, the first difference is at %zu: ", got.size(), wanted.size(), i) + mc::quoted(got.substr(i), 40) + " instead of " + mc::quoted(wanted.substr(i), 40);
}
static void compare(const std::string& path, const httpzoo::Response& got, const Expected& wanted) {
	if (wanted.found) {
		MC_CHECK(got.status == 200, "not-found", "the status of " + path + mc::fmt(" is %d", got.status));
		MC_CHECK(got.body == wanted.body, "content", "the content of " + path + " has " + difference(got.body, wanted.body));
		MC_CHECK(got.type == wanted.type, "type", "the type of " + path + " is " + mc::quoted(got.type.value_or("not given")) + " instead of " + wanted.type);
	} else
		MC_CHECK(got.status == 404, "found", "the missing file " + path + mc::fmt(" is answered with %d ", got.status) + mc::quoted(got.body, 100));
}
// Expects all the responses
static void fetch(IHttpGetResponder& server, const std::vector<std::pair<std::string, Expected>>& wanted) {
	std::vector<std::string> paths;
	for (auto& it : wanted) paths.push_back(it.first);
	Fetched got = fetchAll(server, paths);
	if (mc::failed()) return;
	MC_CHECK(got.responses.size() == wanted.size() && got.rest.empty() && !got.dropped, "responses", mc::fmt("there are %zu responses and %zu bytes instead of %zu", got.responses.size(), got.rest.size(), wanted.size()));
	for (size_t i = 0; i < wanted.size() && !mc::failed(); i++) {
		compare(wanted[i].first, got.responses[i], wanted[i].second);
		mc::step(mc::mix(mc::hash(wanted[i].first), mc::hash(got.responses[i].body)));
	}
	mc::validated();
}

struct Made {
	Scratch scratch;
	std::string root = scratch.path + "/root";
	std::unique_ptr<DynamicFileServer> dynamic;
	std::unique_ptr<CachingFileServer> caching;
	Made() { mkdir(root.c_str(), 0755); }
	void put(const std::string& name, std::string_view content) { scratch.put("root/" + name, content); }
	void erase(const std::string& name) { scratch.erase("root/" + name); }
	IHttpGetResponder& server(int kind) {
		if (kind == Dynamic) {
			if (!dynamic) dynamic = std::make_unique<DynamicFileServer>(root);
			return *dynamic;
		}
		if (!caching) caching = std::make_unique<CachingFileServer>(root);
		return *caching;
	}
};
static Made& shared(int which) { // Reused folders, each scenario has its own
	static std::map<int, std::unique_ptr<Made>> made;
	auto& it = made[which];
	if (!it) it = std::make_unique<Made>();
	return *it;
}

// Sizes
constexpr int sizeUnits = 64;
static void sized(int kind, size_t size) {
	mc::describe(std::string(kindName(kind)) + mc::fmt(" serving %zu bytes", size));
	Made& made = shared(1);
	std::string content = pattern(size);
	made.put("f.bin", content);
	auto& server = made.server(kind);
	if (kind == Caching) made.caching->reload();
	fetch(server, {{"/f.bin", {true, "application/bin", content}}, {"/f.bin", {true, "application/bin", content}}});
}
static mc::Register sizes{"all sizes up to 9000 (70000 if thorough)", sizeUnits, [] (int unit) {
	int kind = mc::choose(2);
	sized(kind, unit + sizeUnits * mc::choose(mc::thorough() ? 1094 : 141));
}};
static mc::Register bigSizes{"sizes around powers of two", 16, [] (int unit) {
	int kind = mc::choose(2);
	int base = mc::choose(mc::thorough() ? 12 : 8); // 8 kiB to 1 MiB or 16 MiB
	static const std::vector<int> factors = {2, 3, 4, 5};
	size_t size = size_t(1 << (12 + base)) * factors[unit % 4] / 2 + (unit / 4) % 4 - 1;
	int offset = mc::choose(3) - 1;
	sized(kind, size + offset * 1024);
}};

// Contents
static mc::Register contents{"all contents of one or two bytes", 2 * 32, [] (int unit) {
	std::string content(1, char(unit / 2 * 8 + mc::choose(8)));
	int second = mc::choose(257);
	if (second < 256) content += char(second);
	mc::describe(std::string(kindName(unit % 2)) + " serving " + mc::quoted(content));
	Made& made = shared(2);
	made.put("x", content);
	auto& server = made.server(unit % 2);
	if (unit % 2 == Caching) made.caching->reload();
	fetch(server, {{"/x", {true, "application/octet-stream", content}}});
}};
static mc::Register texts{"contents of up to 6 (thorough 7) unusual parts", 2 * 9, [] (int unit) {
	static const std::vector<std::string> parts = {" ", "\n", "\r\n", std::string(1, '\0'), "\t", "a", "\x1a", "\xff", "\xef\xbb\xbf"};
	std::string content = parts[unit / 2];
	int limit = mc::thorough() ? 7 : 5;
	for (int i = 1; i < limit; i++) {
		int next = mc::choose(int(parts.size()) + 1);
		if (next == int(parts.size())) break;
		content += parts[next];
	}
	mc::describe(std::string(kindName(unit % 2)) + " serving " + mc::quoted(content));
	Made& made = shared(3);
	made.put("x.css", content);
	auto& server = made.server(unit % 2);
	if (unit % 2 == Caching) made.caching->reload();
	fetch(server, {{"/x.css", {true, "text/css", content}}});
}};

// Names and types
static std::vector<std::string> extensions() {
	std::vector<std::string> made;
	for (auto& [it, type] : table()) made.push_back(it);
	for (std::string it : {"txt", "htm", "html2", "xhtml", "j", "jsx", "7z", "a-b", "ssj", "", "octet-stream", "x_y", "mjs", "jp"}) made.push_back(it);
	return made;
}
static mc::Register types{"types of all extensions in all capitalisations", int(extensions().size()), [] (int unit) {
	std::string extension = extensions()[unit];
	for (char& c : extension) if (c >= 'a' && c <= 'z' && mc::choose(2)) c += 'A' - 'a';
	static const std::vector<std::string> places = {"f.", "sub/f.", "a.b.", "index.html.", "b.json/x.", "c.html/noextension", "d", "F.GZ."};
	std::string place = mc::pick(places);
	std::string name = place + (place.back() == '.' ? extension : "");
	int kind = mc::choose(2), generated = mc::choose(3);
	mc::describe(std::string(kindName(kind)) + " serving " + name + (generated ? generated == 1 ? " generated" : " generated at once" : ""));
	Made made;
	std::string content = pattern(100);
	if (!generated) made.put(name, content);
	auto& server = made.server(kind);
	if (generated) {
		if (kind == Dynamic) made.dynamic->addGeneratedFile(name, generated == 2, [=] (Callback<void(std::span<const char>)> write) { write(std::string_view(content)); });
		else if (generated == 1) made.caching->addGeneratedFile(name, content);
		else made.caching->addGeneratedFile(name, std::vector<char>(content.begin(), content.end()));
	}
	fetch(server, {{"/" + name, {true, typeOf(name), content}}, {"/" + name + "x", {false}}});
}};

// Which files there are
static mc::Register trees{"all combinations of 9 (thorough 11) files in folders", 2 * 8, [] (int unit) {
	static const std::vector<std::string> all = {"index.html", "a", "a.html", "b/index.html", "b/a", "b/c/a.js", "index.html.gz", "d.html/a", "b/c/index.htm", "c/c/c/c", "INDEX.HTML"};
	size_t limit = mc::thorough() ? 11 : 9;
	std::map<std::string, std::string> present;
	Made made;
	for (size_t i = 0; i < limit; i++) {
		bool there = i < 3 ? (unit / 2) >> i & 1 : mc::choose(2);
		if (there) made.put(all[i], present[all[i]] = "This is " + all[i]);
	}
	std::string description = std::string(kindName(unit % 2)) + " with";
	for (auto& it : present) description += " " + it.first;
	mc::describe(description);
	std::vector<std::pair<std::string, Expected>> wanted;
	for (auto& it : all) {
		if (present.contains(it)) wanted.push_back({"/" + it, {true, typeOf(it), present[it]}});
		else wanted.push_back({"/" + it, {false}});
	}
	for (std::string it : {"/b", "/b/", "/b/c", "/d.html", "/d.html/", "/c/c"}) wanted.push_back({it, {false}});
	if (present.contains("index.html")) wanted.push_back({"/", {true, "text/html", present["index.html"]}});
	else wanted.push_back({"/", {false}});
	if (mc::choose(2)) std::reverse(wanted.begin(), wanted.end());
	fetch(made.server(unit % 2), wanted);
}};

// Generators
struct Generator {
	std::vector<size_t> chunks;
	int* times;
};
static mc::Register generators{"generated files written in all sequences of chunks", 11, [] (int unit) {
	static const std::vector<size_t> sizes = {0, 1, 2, 1023, 1024, 1025, 2048, 3072, 4096, 5000, 20000};
	std::vector<size_t> chunks = {sizes[unit]};
	int more = mc::choose(mc::thorough() ? 5 : 4);
	for (int i = 0; i < more; i++) chunks.push_back(mc::pick(sizes));
	bool atOnce = more == 0 && mc::choose(2), none = more == 0 && !atOnce && unit == 0 && mc::choose(2);
	std::string description = "DynamicFileServer with a generator of";
	if (none) chunks.clear();
	for (size_t it : chunks) description += mc::fmt(" %zu", it);
	mc::describe(description + (atOnce ? " at once" : ""));
	Made& made = shared(4);
	auto& server = made.server(Dynamic);
	auto times = std::make_shared<int>(0);
	auto text = [chunks] (int time) {
		std::string whole;
		for (size_t it : chunks) whole += pattern(it, time + int(whole.size()));
		return whole;
	};
	made.dynamic->addGeneratedFile("made.json", atOnce, [=] (Callback<void(std::span<const char>)> write) {
		std::string whole = text(*times);
		size_t position = 0;
		for (size_t it : chunks) {
			zoo::Exact chunk(std::string_view(whole).substr(position, it)); // Does not exist afterwards
			write(chunk.view());
			position += it;
		}
		++*times;
	});
	fetch(server, {{"/made.json", {true, "application/json", text(0)}}, {"/made.json", {true, "application/json", text(1)}}, {"/made.js", {false}}});
	MC_CHECK(*times == 2, "generated", mc::fmt("it was generated %d times for two requests", *times));
}};

// Histories of changes
enum Operation { PutA, PutIndex, EraseA, EraseIndex, PutNested, GenerateA, GenerateNew, GenerateIndex, Reload, Reset, Modifier, operationCount };
static const char* operationNames[] = {"put a.js", "put index.html", "erase a.js", "erase index.html", "put sub/b", "generate a.js", "generate new.html", "generate index.html", "reload", "reset", "add a modifier"};
static void history(int kind, int first) {
	Made made;
	std::map<std::string, std::string> disk, cached, generated;
	std::string description = kindName(kind);
	int modifierRuns = 0, modifiers = 0, expectedRuns = 0, version = 0;
	made.put("a.js", disk["a.js"] = "first");
	made.put("index.html", disk["index.html"] = "first index");
	auto& server = made.server(kind);
	cached = disk;
	int depth = mc::thorough() ? 5 : 4;
	for (int i = 0; i < depth && !mc::failed(); i++) {
		int operation = i == 0 ? first : mc::choose(operationCount + 1);
		if (operation == operationCount) break;
		if (kind == Dynamic && (operation == Reload || operation == Reset || operation == Modifier)) { mc::count("skipped"); return; }
		description += std::string(", ") + operationNames[operation];
		mc::describe(description);
		std::string content = mc::fmt("version %d of ", ++version) + operationNames[operation] + std::string(version * 1500, char(version));
		auto put = [&] (const std::string& name) { made.put(name, disk[name] = content); };
		auto erase = [&] (const std::string& name) { made.erase(name); disk.erase(name); };
		auto generate = [&] (const std::string& name) {
			generated[name] = content;
			if (kind == Caching) made.caching->addGeneratedFile(name, content);
			else made.dynamic->addGeneratedFile(name, version % 2, [content] (Callback<void(std::span<const char>)> write) { write(std::string_view(content)); });
		};
		switch (operation) {
		case PutA: put("a.js"); break;
		case PutIndex: put("index.html"); break;
		case EraseA: erase("a.js"); break;
		case EraseIndex: erase("index.html"); break;
		case PutNested: put("sub/b"); break;
		case GenerateA: generate("a.js"); break;
		case GenerateNew: generate("new.html"); break;
		case GenerateIndex: generate("index.html"); break;
		case Reload: made.caching->reload(); cached = disk; expectedRuns += modifiers; break;
		case Reset: made.caching->reset(); cached = disk; generated.clear(); modifiers = 0; break;
		case Modifier: made.caching->addModifier([&modifierRuns] { modifierRuns++; }); modifiers++; expectedRuns++; break;
		}
		std::vector<std::pair<std::string, Expected>> wanted;
		auto& files = kind == Caching ? cached : disk;
		for (std::string it : {"a.js", "index.html", "sub/b", "new.html", ""}) {
			std::string name = it.empty() ? "index.html" : it;
			if (generated.contains(name)) wanted.push_back({"/" + it, {true, typeOf(name), generated[name]}});
			else if (files.contains(name)) wanted.push_back({"/" + it, {true, typeOf(name), files[name]}});
			else wanted.push_back({"/" + it, {false}});
		}
		fetch(server, wanted);
		MC_CHECK(modifierRuns == expectedRuns, "modifiers", mc::fmt("modifiers ran %d times instead of %d", modifierRuns, expectedRuns));
	}
}
static mc::Register histories{"histories of changes and reloads", 2 * operationCount, [] (int unit) { history(unit % 2, unit / 2); }};

// Files that cannot be read, or only in parts
static mc::Register parts{"files read in pieces", 12, [] (int unit) {
	static const std::vector<size_t> sizes = {1, 2, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 10000, 20000, 70000};
	size_t size = sizes[unit];
	int kind = mc::choose(2);
	static const std::vector<long> pieces = {1, 2, 7, 100, 4095, 4096, 8191, 8192};
	long usual = mc::pick(pieces), other = mc::pick(pieces);
	int when = mc::choose(3);
	mc::describe(std::string(kindName(kind)) + mc::fmt(" reading %zu bytes by %ld, sometimes %ld", size, usual, other));
	Made& made = shared(5);
	std::string content = pattern(size);
	made.put("f.bin", content);
	Watch watch(made.scratch.path);
	int reads = 0;
	watch.onRead = [&] (int, size_t) { return reads++ % 3 == when ? other : usual; };
	auto& server = made.server(kind);
	if (kind == Caching) made.caching->reload();
	fetch(server, {{"/f.bin", {true, "application/bin", content}}});
	mc::count("reads", reads);
}};
static mc::Register broken{"files that cannot be opened or read entirely", 2 * 4, [] (int unit) {
	int kind = unit % 2;
	static const std::vector<size_t> sizes = {1, 5000, 20000, 100000};
	size_t size = sizes[unit / 2];
	static const std::vector<std::string> names = {"f.bin", "sub/f.css", "index.html"};
	std::string name = mc::pick(names);
	int failing = mc::choose(6); // Opening or one of the first reads
	int error = mc::choose(2) ? EIO : failing ? EISDIR : EACCES;
	bool reloaded = mc::choose(2); // It worked before
	mc::describe(std::string(kindName(kind)) + mc::fmt(" with %s of %zu bytes failing %s", name.c_str(), size, failing ? "to read" : "to open") + mc::fmt(" at %d", failing));
	Made made;
	std::string content = pattern(size), fine = "fine";
	made.put(name, content);
	made.put("other.js", fine);
	if (reloaded) made.server(kind);
	Watch watch(made.scratch.path);
	int opened = 0, failures = 0;
	bool now = false;
	watch.refuse = [&] (const std::string& path) -> int {
		now = path.ends_with("/" + name);
		if (now && !failing) { failures++; return error; }
		return 0;
	};
	int reads = 0;
	watch.onRead = [&] (int, size_t asked) -> long {
		if (now && failing && ++reads == failing) { failures++; return -error; }
		return long(std::min<size_t>(asked, 4096));
	};
	std::optional<std::string> thrown;
	try {
		if (kind == Caching) {
			made.server(kind);
			if (reloaded) made.caching->reload();
		}
	} catch (std::exception& e) {
		thrown = e.what(); // Reporting it so is fine
		mc::count("thrown");
		if (!made.caching) return;
	}
	auto& server = made.server(kind);
	std::string path = "/" + name;
	if (name == "index.html" && mc::choose(2)) path = "/";
	now = false;
	Fetched got = fetchAll(server, {path});
	if (mc::failed()) return;
	if (failures == 0) {
		MC_CHECK(got.responses.size() == 1, "responses", "there is no response");
		if (!mc::failed()) compare(path, got.responses[0], {true, typeOf(name), content});
	} else {
		mc::count("failures");
		if (got.responses.empty()) {
			MC_CHECK(got.dropped, "unfinished", "the connection continues after a response that could not be finished");
			size_t split = got.rest.find("\r\n\r\n");
			if (split != std::string::npos)
				MC_CHECK(content.starts_with(got.rest.substr(split + 4)), "content", "something else was sent");
		} else if (got.responses[0].status == 200) {
			MC_CHECK(got.responses[0].body == content, "content-unreadable", "a file that could not be read is sent: it has " + difference(got.responses[0].body, content));
		}
	}
	if (mc::failed() || thrown) return;
	watch.refuse = nullptr;
	watch.onRead = nullptr;
	fetch(server, {{"/other.js", {true, "text/javascript", fine}}});
	if (kind == Caching) made.caching->reload();
	fetch(server, {{path, {true, typeOf(name), content}}});
}};
// Files changing while they are sent
static mc::Register changing{"files changing while they are sent", 8, [] (int unit) {
	static const std::vector<size_t> sizes = {0, 1, 4096, 5000, 8192, 20000, 30000, 60000};
	size_t before = sizes[unit], after = mc::pick(sizes);
	int when = mc::choose(5);
	mc::describe(mc::fmt("DynamicFileServer with a file of %zu bytes becoming one of %zu at read %d", before, after, when));
	Made made;
	std::string first = pattern(before, 1), second = pattern(after, 2);
	made.put("f.bin", first);
	auto& server = made.server(Dynamic);
	bool changed = false;
	int reads = 0;
	Fetched got;
	{
		Watch watch(made.scratch.path);
		watch.onRead = [&] (int, size_t asked) -> long {
			if (reads++ == when) {
				changed = true;
				made.put("f.bin", second);
			}
			return long(asked);
		};
		got = fetchAll(server, {"/f.bin"});
	}
	if (mc::failed()) return;
	if (!changed) made.put("f.bin", second);
	if (!got.responses.empty()) {
		MC_CHECK(got.responses[0].status == 200 && got.responses[0].body.size() == before, "size", mc::fmt("the response has %zu bytes instead of %zu", got.responses[0].body.size(), before));
	} else MC_CHECK(got.dropped && changed, "unfinished", "there is no response and the connection continues");
	if (got.responses.size() == 1) for (size_t i = 0; i < before && !mc::failed(); i++) {
		char c = got.responses[0].body[i];
		MC_CHECK(c == first[i] || (changed && i < after && c == second[i]), "content", mc::fmt("byte %zu is of neither version", i));
	}
	if (mc::failed()) return;
	fetch(server, {{"/f.bin", {true, "application/bin", second}}});
}};
// Sizes that do not fit into an int, in a sparse file whose last bytes are marked
static mc::Register enormous{"enormous files", 3, [] (int unit) {
	static const uint64_t sizes[] = {(1ull << 31) - 1, (1ull << 31) + 5, (1ull << 32) + 5};
	uint64_t size = sizes[unit];
	mc::describe(mc::fmt("DynamicFileServer serving %llu bytes", (unsigned long long)size));
	Made made;
	made.put("f.bin", "begins");
	std::string path = made.root + "/f.bin";
	if (truncate(path.c_str(), size) != 0) { mc::count("such files cannot be made"); return; }
	if (FILE* f = fopen(path.c_str(), "r+")) {
		fseek(f, size - 4, SEEK_SET);
		fputs("ends", f);
		fclose(f);
	}
	auto& server = made.server(Dynamic);
	Silence silence;
	HttpServer<> http(server);
	auto session = http.getSession();
	std::string request = "GET /f.bin HTTP/1.1\r\nHost: x\r\n\r\n", header, begin, end;
	uint64_t contents = 0;
	bool started = false;
	auto [reaction, consumed] = session.respond(request, [&] (std::span<const char> part) {
		std::string_view given(part.data(), part.size());
		if (!started) {
			header += given;
			auto place = header.find("\r\n\r\n");
			if (place == std::string::npos) return;
			started = true;
			given.remove_prefix(given.size() - (header.size() - place - 4));
			header.resize(place + 4);
		}
		contents += given.size();
		if (begin.size() < 7) begin += given.substr(0, 7 - begin.size());
		end += given.substr(given.size() - std::min<size_t>(4, given.size()));
		if (end.size() > 4) end.erase(0, end.size() - 4);
	});
	MC_CHECK(reaction == ServerReaction::OK && consumed == int64_t(request.size()), "enormous:reaction", mc::fmt("%llu bytes of the file were sent and the connection is ended", (unsigned long long)contents));
	MC_CHECK(header.starts_with("HTTP/1.1 200 ") && header.find(" " + std::to_string(size) + "\r\n") != std::string::npos, "enormous:header", "the header is " + mc::quoted(header, 200));
	MC_CHECK(contents == size, "enormous:size", mc::fmt("%llu bytes were sent", (unsigned long long)contents));
	MC_CHECK(begin == std::string("begins\0", 7) && end == "ends", "enormous:content", "the content begins with " + mc::quoted(begin) + " and ends with " + mc::quoted(end));
	mc::step(mc::mix(size, contents));
	mc::validated();
}};
