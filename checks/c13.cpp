// C13: The TCP input buffer reassembles every message
#include "mc.hpp"
#include "zoo.hpp"
#include "bomba_core.hpp"
#include <mutex>
#include <thread>
#include "bomba_tcp_server.hpp"
using namespace Bomba;

static char byteAt(size_t i) { return char(i * 7 + i / 251 + i / 65521); }

// A handler of messages of known sizes
struct Handler : ITcpServerSession {
	std::vector<size_t> ends; // of messages, in the stream
	std::vector<ServerReaction> reactions; // what to do after them
	size_t received = 0; // from the network so far
	size_t consumed = 0, message = 0, parsed = 0;
	bool disconnected = false, fedAfterDisconnect = false;
	size_t fedThisTime = 0;
	bool satisfied = true; // Everything that is complete was consumed
	bool readOnLast = false;
	std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
		fedThisTime++;
		if (disconnected) fedAfterDisconnect = true;
		MC_CHECK(parsed == message, "parsed-notifications", mc::fmt("%zu messages were reported as parsed after %zu messages", parsed, message));
		MC_CHECK(!data.empty(), "empty-message", "an empty message was passed");
		MC_CHECK(data.size() == received - consumed, "passed-size", mc::fmt("%zu bytes were passed at %zu of %zu received", data.size(), consumed, received));
		MC_CHECK(!readOnLast || fedThisTime == 1, "passed-again", "an incomplete message was passed again without anything received");
		if (mc::failed()) { disconnected = true; return {ServerReaction::DISCONNECT, 0}; }
		for (size_t i = 0; i < data.size(); i++)
			if (data[i] != byteAt(consumed + i)) {
				mc::fail("passed-data", mc::fmt("byte %zu of the stream is wrong, %zu bytes were passed from %zu", consumed + i, data.size(), consumed));
				disconnected = true;
				return {ServerReaction::DISCONNECT, 0};
			}
		readOnLast = false;
		if (message >= ends.size() || received < ends[message]) {
			readOnLast = true;
			return {ServerReaction::READ_ON, int(data.size())};
		}
		size_t size = ends[message] - consumed;
		auto reaction = reactions[message];
		message++;
		if (reaction == ServerReaction::DISCONNECT) {
			disconnected = true;
			return {reaction, int(size)};
		}
		// Handlers may overwrite what they parse
		memset(data.data(), 0xdd, size);
		consumed += size;
		return {ServerReaction::OK, int(size)};
	}
	void notifyMessageWasParsed() override { parsed++; }
};

static void transfer(const std::vector<size_t>& sizes, std::vector<ServerReaction> reactions, const std::function<size_t(size_t space, const Handler&, size_t left)>& chunk,
		size_t failAt = size_t(-1), bool error = false) {
	auto buffer = std::make_unique<TcpServerBuffer>();
	Handler handler;
	size_t total = 0;
	for (size_t it : sizes) handler.ends.push_back(total += it);
	reactions.resize(sizes.size(), ServerReaction::OK);
	handler.reactions = reactions;
	size_t rounds = 0;
	while (handler.received < total && !mc::failed()) {
		std::span<char> space = buffer->space();
		MC_CHECK(space.size() > 0 && space.data(), "no-space", mc::fmt("there is no space for the received data after %zu bytes", handler.received));
		if (mc::failed()) return;
		memset(space.data(), 0xee, space.size()); // The network can write it all
		MC_CHECK(buffer->space().data() == space.data() && buffer->space().size() == space.size(), "space-overlaps", "writing into the space for received data changes the buffer");
		size_t now = std::min(chunk(space.size(), handler, total - handler.received), std::min(space.size(), total - handler.received));
		for (size_t i = 0; i < now; i++) space[i] = byteAt(handler.received + i);
		handler.fedThisTime = 0;
		handler.readOnLast = false;
		mc::step(mc::mix(mc::mix(handler.received, handler.consumed), mc::mix(space.size(), now)));
		if (rounds++ == failAt) {
			bool goes = error ? buffer->receive(handler, std::make_error_code(std::errc::connection_reset), int(now)) : buffer->receive(handler, {}, 0);
			MC_CHECK(!goes, "continues", "the session continues after the connection ended");
			MC_CHECK(handler.fedThisTime == 0, "passed-again", "data was passed after the connection ended");
			mc::validated();
			return;
		}
		size_t sizeBefore = handler.received;
		handler.received += now;
		(void)sizeBefore;
		bool goes = buffer->receive(handler, {}, int(now));
		if (mc::failed()) return;
		MC_CHECK(goes == !handler.disconnected, "ending", handler.disconnected ? "the session continues after disconnecting" : "the session ended");
		MC_CHECK(!handler.fedAfterDisconnect, "passed-after-disconnect", "more data was passed after disconnecting");
		if (handler.disconnected) break;
		MC_CHECK(handler.fedThisTime > 0, "not-passed", "the received data was not passed");
		MC_CHECK(handler.message >= handler.ends.size() || handler.ends[handler.message] > handler.received, "not-passed", "a complete message was not passed");
		MC_CHECK(handler.readOnLast || handler.consumed == handler.received, "not-passed", mc::fmt("data was not passed, %zu of %zu", handler.consumed, handler.received));
		MC_CHECK(handler.parsed == handler.message, "parsed-notifications", "messages reported as parsed differ");
	}
	mc::validated();
}
static const std::vector<size_t>& messageSizes() {
	static const std::vector<size_t> made = {1, 2, 100, 1023, 1024, 1025, 1535, 1536, 1537, 2047, 2048, 2049, 3000, 3071, 3072, 3073, 4096, 5119, 5120, 5121, 6143, 6144, 6145, 9215, 9216, 9217, 12288, 20000};
	return made;
}
static size_t chunkKind(int kind, size_t space, const Handler& h, size_t left) {
	size_t toEnd = h.message < h.ends.size() ? h.ends[h.message] - h.received : left;
	switch (kind) {
	case 0: return space;
	case 1: return 1;
	case 2: return space - 1 ? space - 1 : 1;
	case 3: return toEnd;
	case 4: return toEnd > 1 ? toEnd - 1 : 1;
	case 5: return toEnd + 1;
	case 6: return (space + 1) / 2;
	case 7: return 1000;
	case 8: return 3072 - h.received % 3072;
	case 9: return 2048 - (h.received - h.consumed) % 2048;
	case 10: return 3072 - (h.received - h.consumed) % 3072;
	}
	abort();
}
constexpr int chunkKinds = 11;
static std::string listed(const std::vector<size_t>& sizes) {
	std::string r;
	for (size_t it : sizes) r += mc::fmt(" %zu", it);
	return r;
}

static mc::Register sizesOfTwo("all sizes of two messages with chunks of one kind and deviations", 28 * chunkKinds, [] (int u) {
	int usual = u % chunkKinds;
	std::vector<size_t> sizes = {messageSizes()[u / chunkKinds], mc::pick(messageSizes()), 5, 3};
	if (usual == 1) for (auto& it : sizes) if (it > 7000) return;
	std::string chunks;
	mc::describe(mc::fmt("messages of%s bytes, usual chunk %d", listed(sizes).c_str(), usual));
	int decisions = 0;
	transfer(sizes, {}, [&] (size_t space, const Handler& h, size_t left) {
		int kind = usual;
		if (usual != 1 && decisions++ < 12) {
			int deviation = mc::chooseDev(chunkKinds);
			if (deviation) kind = (usual + deviation) % chunkKinds;
		}
		size_t made = chunkKind(kind, space, h, left);
		mc::describeMore(mc::fmt(" %zu", made));
		return made;
	});
}, 1);
// Small message, then large ones in all sequences of kinds of chunks
static mc::Register sequences("all sequences of kinds of chunks", chunkKinds * 12, [] (int u) {
	static const std::vector<size_t> all[] = {{1, 3071, 3}, {1, 3072, 2}, {3072, 1, 1}, {3073, 3072, 5}, {2000, 2000, 2000}, {1, 1, 6144, 1}, {10000, 1}, {6144, 6144}, {100, 5000, 100, 3072}, {1537, 1536, 1535}, {2048, 1024, 2048, 1024}, {3072, 3072, 3072}};
	auto& sizes = all[u / chunkKinds];
	mc::describe(mc::fmt("messages of%s bytes, chunks", listed(sizes).c_str()));
	int decisions = 0;
	static const int some[] = {0, 3, 1, 4, 6, 5};
	transfer(sizes, {}, [&] (size_t space, const Handler& h, size_t left) {
		int kind = decisions == 0 ? u % chunkKinds : decisions < (mc::thorough() ? 5 : 4) ? mc::choose(chunkKinds) : decisions < (mc::thorough() ? 7 : 5) ? mc::pick(some) : 0;
		decisions++;
		size_t made = chunkKind(kind, space, h, left);
		mc::describeMore(mc::fmt(" %zu", made));
		return made;
	});
});
// Messages of sizes around the size of the buffer at every offset
static mc::Register offsets("a message behind another at every offset", 256, [] (int u) {
	size_t first = 12 * u + 1 + mc::choose(12);
	static const size_t seconds[] = {1, 2000, 2048, 3071, 3072, 3073, 6144, 6145};
	std::vector<size_t> sizes = {first, mc::pick(seconds), 2};
	int usual = mc::choose(3);
	static const int kinds[] = {0, 3, 2};
	mc::describe(mc::fmt("messages of%s bytes, usual chunk %d", listed(sizes).c_str(), kinds[usual]));
	transfer(sizes, {}, [&] (size_t space, const Handler& h, size_t left) { return chunkKind(kinds[usual], space, h, left); });
});
// A message cut at every place
static mc::Register cuts("cut at every place", 205, [] (int u) {
	static const std::vector<size_t> all[] = {{3071, 3}, {1500, 1500, 1500}, {3072, 3072}, {4000, 100}};
	auto& sizes = mc::pick(all);
	size_t place = u * 20 + mc::choose(20) + 1;
	mc::describe(mc::fmt("messages of%s bytes cut at %zu", listed(sizes).c_str(), place));
	transfer(sizes, {}, [&] (size_t space, const Handler& h, size_t left) { return h.received < place ? std::min(space, place - h.received) : space; });
});
static mc::Register many("many messages", 28, [] (int u) {
	std::vector<size_t> sizes;
	int kind = mc::choose(chunkKinds);
	size_t other = mc::pick(messageSizes());
	for (size_t total = 0, i = 0; total < 60000 && sizes.size() < 300; i++) {
		sizes.push_back(i % 3 == 2 ? other : messageSizes()[u]);
		total += sizes.back();
	}
	if (kind == 1) sizes.resize(std::min<size_t>(sizes.size(), 7));
	if (kind == 1 && (other > 3000 || messageSizes()[u] > 3000)) return;
	mc::describe(mc::fmt("%zu messages of %zu and %zu bytes, chunks %d", sizes.size(), messageSizes()[u], other, kind));
	transfer(sizes, {}, [&] (size_t space, const Handler& h, size_t left) { return chunkKind(kind, space, h, left); });
});
static mc::Register endings("disconnecting and errors", 28, [] (int u) {
	std::vector<size_t> sizes = {messageSizes()[u], mc::pick(messageSizes()), 3};
	int kind = mc::choose(chunkKinds);
	if (kind == 1) return;
	int how = mc::choose(3);
	int when = mc::choose(how == 0 ? 3 : 12);
	mc::describe(mc::fmt("messages of%s bytes, chunk %d, ending %d at %d", listed(sizes).c_str(), kind, how, when));
	std::vector<ServerReaction> reactions(3, ServerReaction::OK);
	if (how == 0) reactions[when] = ServerReaction::DISCONNECT;
	transfer(sizes, reactions, [&] (size_t space, const Handler& h, size_t left) { return chunkKind(kind, space, h, left); }, how ? when : size_t(-1), how == 1);
});
