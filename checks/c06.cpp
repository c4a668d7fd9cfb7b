// C06: all small byte sequences and mutations of binary data, read into various types and sent to a server
#include "rpczoo.hpp"
using namespace rpczoo;

template <typename SizeType, typename T>
void contained(std::string_view bytes) {
	using Format = BinaryFormat<std::string, SizeType>;
	T expected{};
	BinaryRef ref{bytes, sizeof(SizeType)};
	bool complete = ref.read(expected);
	size_t used = bytes.size() - ref.in.size();
	Exact exact(bytes);
	T into{};
	bool reported = false;
	try {
		typename Format::Input in(exact.view());
		TypedSerialiser<T>::deserialiseMember(in, into, noFlags);
		reported = !in.good;
		MC_CHECK(reported || in.position() <= int(bytes.size()), "position", mc::fmt("the position is %d of %zu", in.position(), bytes.size()));
		if (complete && !reported)
			MC_CHECK(in.position() == int(used), "consumed", mc::fmt("%d bytes consumed instead of %zu", in.position(), used));
	} catch (std::exception& e) {
		reported = true;
		MC_CHECK(documentedError(e), std::string("exception:") + typeid(e).name(), e.what());
	}
	MC_CHECK(complete || reported, "incomplete", "incomplete data was not reported");
	MC_CHECK(!complete || !reported, "complete", "complete data was refused");
	if (complete && !reported)
		MC_CHECK(Kit<T>::same(into, expected), "value", "read " + show(Kit<T>::node(into)).substr(0, 300) + " instead of " + show(Kit<T>::node(expected)).substr(0, 300));
	mc::step(mc::mix(mc::hash(bytes), reported));
	mc::validated();
}
struct Any {
	std::string name;
	std::function<void(std::string_view)> read;
	std::function<std::string(int)> made;
};
template <typename SizeType, typename T>
Any any() {
	return {Kit<T>::name() + mc::fmt(" size%zu", sizeof(SizeType)), contained<SizeType, T>, [] (int level) { std::string r; Kit<T>::binary(r, Kit<T>::gen(level), sizeof(SizeType)); return r; }};
}
static const std::vector<Any>& all() {
	static const std::vector<Any> made = [] {
		std::vector<Any> r;
		forEach(zoo::List<bool, int8_t, uint16_t, int32_t, uint64_t, double, std::string, std::vector<std::string>, std::vector<int16_t>, std::map<std::string, int16_t>, Optional<std::string>, std::array<int16_t, 2>,
				Two<int32_t, std::string>, Three<Optional<int16_t>, std::vector<int8_t>, std::string>, std::vector<Two<std::string, int8_t>>, std::map<std::string, std::vector<int8_t>>,
				std::unique_ptr<One<std::vector<float>>>, std::vector<std::vector<std::vector<int8_t>>>, std::vector<Optional<bool>>, Three<bool, std::map<std::string, Optional<bool>>, std::array<std::string, 2>>>(),
				[&] <typename T> () { r.push_back(any<uint8_t, T>()); r.push_back(any<uint16_t, T>()); r.push_back(any<uint32_t, T>()); });
		return r;
	}();
	return made;
}
static const int kinds = 60;

static mc::Register truncated("cut data", kinds, [] (int u) {
	std::string bytes = all()[u].made(1);
	if (bytes.size() > 2000) return; // More is done elsewhere
	for (size_t end = 0; end < bytes.size(); end++) {
		if (end > 300 && end + 40 < bytes.size()) continue;
		mc::describe(all()[u].name + " from " + mc::quoted(bytes.substr(0, end), 100));
		all()[u].read(std::string_view(bytes).substr(0, end));
	}
	all()[u].read(bytes);
});
static mc::Register mutated("data with one byte changed", kinds, [] (int u) {
	std::string bytes = all()[u].made(2);
	if (bytes.size() > 80) return;
	int at = mc::choose(int(bytes.size()) + 1);
	int byte = mc::choose(256);
	for (int how = 0; how < 2; how++) {
		std::string text = bytes;
		if (how == 0) text.insert(at, 1, char(byte));
		else if (at < int(text.size())) text[at] = char(byte);
		mc::describe(all()[u].name + " from " + mc::quoted(text));
		all()[u].read(text);
	}
});
static const unsigned char special[] = {0, 1, 2, 3, 5, 0x7f, 0x80, 0xfe, 0xff};
static mc::Register twice("data with two changes", kinds, [] (int u) {
	std::string bytes = all()[u].made(3);
	if (bytes.size() > (mc::thorough() ? 60 : 40)) return;
	int last = 0;
	for (int i = 0; i < 2; i++) {
		int at = last = last + mc::choose(int(bytes.size()) + 1 - last);
		int what = mc::choose(int(std::size(special)) * 2 + 2);
		if (what < int(std::size(special))) bytes.insert(at, 1, special[what]);
		else if (at < int(bytes.size())) {
			what -= std::size(special);
			if (what < int(std::size(special))) bytes[at] = special[what];
			else if (what == int(std::size(special))) bytes.erase(at, 1);
			else bytes.erase(at);
		}
		last = std::min<int>(last, bytes.size());
	}
	mc::describe(all()[u].name + " from " + mc::quoted(bytes));
	all()[u].read(bytes);
});
static mc::Register sequences("sequences of bytes", kinds, [] (int u) {
	static const unsigned char alphabet[] = {0, 1, 2, 3, 'a', 0x80, 0xff};
	std::string bytes;
	int length = mc::choose(mc::thorough() ? 7 : 6);
	for (int i = 0; i < length; i++) bytes += char(mc::pick(alphabet));
	mc::describe(all()[u].name + " from " + mc::quoted(bytes));
	all()[u].read(bytes);
});
static mc::Register sequences2("sequences of 2 bytes", 256, [] (int u) {
	std::string bytes(1, char(u));
	int second = mc::choose(257);
	if (second < 256) bytes += char(second);
	for (auto& it : all()) {
		mc::describe(it.name + " from " + mc::quoted(bytes));
		it.read(bytes);
	}
});
static mc::Register huge("large sizes", kinds, [] (int u) {
	static const uint64_t sizes[] = {0x7fff, 0x8000, 0xffff, 0x10000, 0x7ffffff8, 0x7ffffffb, 0x7fffffff, 0x80000000, 0xfffffffb, 0xffffffff};
	std::string bytes;
	int before = mc::choose(3);
	for (int i = 0; i < before; i++) bytes += char(1);
	uint64_t size = mc::pick(sizes);
	putSize(bytes, size, 4);
	bytes += std::string(mc::choose(2) ? 100000 : mc::choose(6), char(mc::choose(3)));
	if (mc::choose(2)) bytes = bytes.substr(2);
	mc::describe(all()[u].name + " from " + mc::quoted(bytes, 20));
	all()[u].read(bytes);
});

// The server
struct Branch : RpcObject<Branch> {
	RpcMember<[] (int32_t a = name("a")) { called("branch", a); return a + 1; }> one = child<"one">;
};
template <typename SizeType>
struct Server {
	Calc calc;
	Branch branch;
	DynamicRpcObject root;
	BinaryProtocolServer<SizeType> server;
	typename BinaryProtocolServer<SizeType>::Session session;
	Server() : server(setUp()), session(server.getSession()) {}
	IRemoteCallable& setUp() {
		root.add("calc", RpcLambdaHolder::nonOwning(calc));
		root.add("branch", RpcLambdaHolder::nonOwning(branch));
		root.add("direct", [] (std::string text = name("text")) { called("direct", text); return "<" + text + ">"; });
		return root;
	}
};
template <typename SizeType>
struct Model {
	// What a stream of bytes causes
	std::string responses;
	std::vector<std::string> log;
	enum { Waits, Drops } ending = Waits;
	size_t unread = 0;
	bool ambiguous = false;
	explicit Model(std::string_view stream) {
		constexpr int width = sizeof(SizeType);
		while (true) {
			unread = stream.size();
			if (stream.size() < 4 + width) return;
			uint64_t size = 0;
			for (int i = 0; i < width; i++) size |= uint64_t((unsigned char)stream[4 + i]) << (8 * i);
			if (size < 4 + width) { ending = Drops; return; }
			if (stream.size() < size) return;
			BinaryRef in{stream.substr(4 + width, size - 4 - width), width};
			std::string result;
			uint8_t first, second;
			std::optional<Sample> sample;
			ending = Drops;
			if (!in.read(first)) return;
			if (first == 0) {
				if (!in.read(second)) return;
				sample = decodeCall(second, in);
				if (!sample) return;
				log.push_back(sample->log);
				if (sample->throws) return;
				result = sample->binaryResult[width];
			} else if (first == 1) {
				int32_t a;
				if (!in.read(second) || second != 0 || !in.read(a)) return;
				log.push_back(callText("branch", a));
				putLE(result, int32_t(uint32_t(a) + 1));
			} else if (first == 2) {
				std::string text;
				if (!in.read(text)) return;
				log.push_back(callText("direct", text));
				Kit<std::string>::binary(result, "<" + text + ">", width);
				if (text.size() + 2 > std::numeric_limits<SizeType>::max()) return;
			} else return;
			if (result.size() + 4 + width > std::numeric_limits<SizeType>::max()) return;
			if (!in.in.empty()) ambiguous = true; // More arguments than known, could be refused too
			ending = Waits;
			responses += stream.substr(0, 4);
			putSize(responses, result.size() + 4 + width, width);
			responses += result;
			stream.remove_prefix(size);
		}
	}
};
// Feeds the stream in the given chunks like a connection would
template <typename SizeType>
void serve(std::string_view stream, std::vector<size_t> cuts) {
	Model<SizeType> model(stream);
	Server<SizeType> server;
	calls.clear();
	std::string received, responses;
	bool dropped = false;
	cuts.push_back(stream.size());
	size_t fed = 0;
	for (size_t cut : cuts) {
		received += stream.substr(fed, cut - fed);
		fed = cut;
		while (!received.empty()) {
			Exact exact(received);
			std::pair<ServerReaction, int64_t> reaction;
			try {
				reaction = server.session.respond(exact.span(), [&] (std::span<const char> output) { responses.append(output.data(), output.size()); });
			} catch (std::exception& e) {
				mc::fail("server-exception", std::string("an exception escaped from the server: ") + e.what());
				return;
			} catch (...) {
				mc::fail("server-exception", "something else escaped from the server");
				return;
			}
			mc::step(mc::mix(mc::hash(received), int(reaction.first)));
			if (reaction.first == ServerReaction::OK) {
				MC_CHECK(reaction.second > 0 && reaction.second <= int64_t(received.size()), "server-consumed", mc::fmt("%lld bytes of %zu consumed", (long long)reaction.second, received.size()));
				if (mc::failed()) return;
				received.erase(0, reaction.second);
			} else if (reaction.first == ServerReaction::READ_ON) break;
			else { dropped = true; MC_CHECK(reaction.first == ServerReaction::DISCONNECT, "reaction", "the reaction is something else"); break; }
		}
		if (dropped) break;
	}
	if (!model.ambiguous) {
		MC_CHECK(responses == model.responses, "responses", "the server responded " + mc::quoted(responses, 300) + " instead of " + mc::quoted(model.responses, 300));
		MC_CHECK(dropped == (model.ending == Model<SizeType>::Drops), "ending", dropped ? "the connection was dropped" : "the connection was not dropped");
		MC_CHECK(calls == model.log, "calls", mc::fmt("%zu methods run instead of %zu, the last being ", calls.size(), model.log.size()) + (calls.empty() ? "none" : calls.back()));
		if (!dropped) MC_CHECK(received.size() == model.unread, "unread", mc::fmt("%zu bytes left unread instead of %zu", received.size(), model.unread));
	}
	mc::validated();
}
template <typename SizeType>
std::string message(uint32_t id, std::string_view path, const std::string& args) {
	std::string r;
	putLE(r, id);
	putSize(r, 4 + sizeof(SizeType) + path.size() + args.size(), sizeof(SizeType));
	r += path;
	return r + args;
}
template <typename SizeType>
std::string messageOf(uint32_t id, const Sample& s) {
	return message<SizeType>(id, std::string("\0", 1) + char(s.index), s.binaryArgs[sizeof(SizeType)]);
}
template <typename SizeType>
std::string messages(int which, uint32_t id) { // 0 to 9 are fine
	using namespace std::string_literals;
	constexpr int w = sizeof(SizeType);
	std::string text;
	putSize(text, 2, w);
	switch (which) {
	case 0: return messageOf<SizeType>(id, mAdd.with(5, -7));
	case 1: return messageOf<SizeType>(id, mEcho.with("text"));
	case 2: return messageOf<SizeType>(id, mStop.with());
	case 3: return message<SizeType>(id, "\2"s, text + "ab");
	case 4: return message<SizeType>(id, "\1\0"s, "\1\0\0\0"s);
	case 5: return messageOf<SizeType>(id, mEach.with({1, 2}, true));
	case 6: return messageOf<SizeType>(id, mFail.with(-1)); // From here they fail
	case 7: return message<SizeType>(id, "\3"s, "");
	case 8: return message<SizeType>(id, "\0\x63"s, "");
	case 9: return message<SizeType>(id, "\0\0"s, "\1\2\3"s);
	case 10: return message<SizeType>(id, "", "");
	case 11: return message<SizeType>(id, "\0"s, "");
	case 12: { std::string m = message<SizeType>(id, "\2"s, text + "ab"); m[4] = 4 + w - 1; return m; }
	case 13: { std::string m = message<SizeType>(id, "\2"s, text + "ab"); m[4] = 0; return m; }
	case 14: { std::string m = message<SizeType>(id, "\2"s, text + "a"); return m; }
	case 15: return message<SizeType>(id, "\xff\xff"s, "");
	case 16: return message<SizeType>(id, "\0\0"s, "\1\2\3\4\5\6\7\x08more"s);
	}
	abort();
}
constexpr int messageKinds = 17;

template <typename SizeType>
void streams(int first) {
	int count = 1 + mc::choose(3);
	std::string stream = messages<SizeType>(first, 0xfffffffe);
	for (int i = 1; i < count; i++) stream += messages<SizeType>(mc::choose(messageKinds), 0x7fffffff + i);
	std::vector<size_t> cuts;
	if (count < 3 || mc::thorough()) {
		int cut = mc::choose(int(stream.size()) + 1);
		if (cut) cuts.push_back(cut);
	} else if (mc::choose(2)) for (size_t i = 1; i < stream.size(); i++) cuts.push_back(i); // One by one
	mc::describe(mc::fmt("size%zu %zu cuts ", sizeof(SizeType), cuts.size()) + mc::quoted(stream, 200));
	serve<SizeType>(stream, cuts);
}
static mc::Register streams2("streams of messages, 16 bit sizes", messageKinds, [] (int u) { streams<uint16_t>(u); });
static mc::Register streams1("streams of messages, 8 bit sizes", messageKinds, [] (int u) { streams<uint8_t>(u); });
static mc::Register streams4("streams of messages, 32 bit sizes", messageKinds, [] (int u) { streams<uint32_t>(u); });

static mc::Register changed("messages with one byte changed", messageKinds, [] (int u) {
	auto run = [&] <typename SizeType> (SizeType) {
		std::string first = messages<SizeType>(u, 3), second = messages<SizeType>(0, 4);
		int at = mc::choose(int(first.size()));
		first[at] = char(mc::choose(256));
		std::string stream = first + second;
		mc::describe(mc::fmt("size%zu ", sizeof(SizeType)) + mc::quoted(stream, 200));
		serve<SizeType>(stream, {});
	};
	switch (mc::choose(3)) {
	case 0: run(uint8_t()); break;
	case 1: run(uint16_t()); break;
	case 2: run(uint32_t()); break;
	}
});
static mc::Register cut("every call cut and sized wrongly", methodCount, [] (int u) {
	Sample sample = anyCall(u, 3);
	std::string whole = messageOf<uint16_t>(1, sample);
	if (whole.size() > 200) return;
	int size = mc::choose(int(whole.size()) + 3); // The size it claims to have
	whole[4] = char(size);
	whole[5] = 0;
	std::string stream = whole + messages<uint16_t>(0, 2);
	if (mc::choose(2)) stream.resize(mc::choose(int(whole.size())));
	mc::describe(mc::fmt("claimed size %d of ", size) + mc::quoted(stream));
	serve<uint16_t>(stream, {});
});
static mc::Register long_("long messages and responses", 6, [] (int u) {
	static const size_t sizes[] = {200, 240, 244, 245, 246, 247, 248, 249, 250, 251, 252, 253, 254, 255, 1000, 1009, 1010, 1011, 1012, 1013, 1014, 1015, 1016, 1017, 1018, 1023, 1024, 1025, 3000, 3072, 10000, 32767, 32768, 65516, 65520, 65521, 65522, 65523, 65524, 65525, 65526, 65527, 65530, 65535};
	size_t size = mc::pick(sizes);
	auto run = [&] <typename SizeType> (SizeType) {
		std::string args;
		putSize(args, size, sizeof(SizeType));
		args += std::string(size, 'x');
		if (args.size() + 7 + sizeof(SizeType) > std::numeric_limits<SizeType>::max()) return;
		std::string stream = messages<SizeType>(0, 1) + (u % 2 ? message<SizeType>(2, "\2", args) : message<SizeType>(2, std::string_view("\0\x0c", 2), args)) + messages<SizeType>(2, 3);
		mc::describe(mc::fmt("size%zu %zu characters", sizeof(SizeType), size));
		std::vector<size_t> cuts;
		if (mc::choose(2)) cuts.push_back(stream.size() / 2);
		serve<SizeType>(stream, cuts);
	};
	if (u < 2) run(uint8_t()); else if (u < 4) run(uint16_t()); else run(uint32_t());
});
