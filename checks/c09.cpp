// C09: buffers against a plain string as the reference model, over all sequences of operations up to a depth
#include "mc.hpp"
#include "bomba_core.hpp"
#include <memory>
using namespace Bomba;

static std::string patternOf(size_t start, size_t length, bool noZero) {
	std::string r(length, ' ');
	for (size_t i = 0; i < length; i++) {
		r[i] = char((start + i) * 7 + ((start + i) >> 8) * 31);
		if (noZero && r[i] == 0) r[i] = 'z';
	}
	return r;
}

// Exactly sized heap copies, so that reading behind them is detected
struct Exact {
	std::unique_ptr<char[]> data;
	size_t size;
	Exact(std::string_view s, bool terminated = false) : data(new char[s.size() + terminated]), size(s.size()) {
		memcpy(data.get(), s.data(), s.size());
		if (terminated) data[s.size()] = 0;
	}
};

static std::vector<size_t> lengths(size_t s) {
	std::vector<size_t> all = {0, 1, 2, s - 1, s, s + 1, 2 * s - 1, 2 * s, 2 * s + 1, 3 * s - 1, 3 * s, 3 * s + 1, 6 * s, 6 * s + 1};
	if (mc::thorough()) { all.push_back(12 * s + 1); all.push_back(5 * s); all.push_back(s / 2 + 1); }
	std::sort(all.begin(), all.end());
	all.erase(std::unique(all.begin(), all.end()), all.end());
	return all;
}

// One append with a decision about how and how much
template <typename Buffer>
void append(Buffer& buffer, std::string& model, size_t staticSize, size_t& offset, int forcedOp = -1) {
	auto options = lengths(staticSize);
	int op = forcedOp >= 0 ? forcedOp : mc::choose(int(options.size()) + 3);
	std::string added;
	if (op == 0) {
		added = patternOf(offset, 1, false);
		buffer += added[0];
		mc::describeMore(" char");
	} else if (op == 1 || op == 2) {
		added = patternOf(offset, op == 1 ? staticSize / 2 + 1 : staticSize + 1, true);
		Exact exact(added, true);
		if (op == 1)
			buffer += static_cast<const char*>(exact.data.get());
		else
			buffer += std::span<const char>(exact.data.get(), exact.size);
		mc::describeMore(mc::fmt(op == 1 ? " cstr:%zu" : " span:%zu", added.size()));
	} else {
		added = patternOf(offset, options[op - 3], false);
		Exact exact(added);
		buffer += std::string_view(exact.data.get(), exact.size);
		mc::describeMore(mc::fmt(" view:%zu", added.size()));
	}
	offset += added.size();
	model += added;
}

template <typename Buffer>
void compare(const char* kind, Buffer& buffer, const std::string& model) {
	std::string_view view = static_cast<const Buffer&>(buffer);
	std::span<char> span = buffer;
	MC_CHECK(buffer.size() == int(model.size()), std::string("size:") + kind, mc::fmt("size() is %d, expected %zu", buffer.size(), model.size()));
	MC_CHECK(view == model, std::string("content:") + kind, mc::fmt("holds %zu bytes, expected %zu; %s", view.size(), model.size(),
			view.size() == model.size() ? "different bytes" : "different size"));
	MC_CHECK(std::string_view(span.data(), span.size()) == model, std::string("span:") + kind, "the span differs from what was appended");
	mc::step(mc::mix(mc::hash(view), mc::hash(kind)));
}

template <typename Buffer, int Size, bool Expanding>
void holding(const char* kind, int unit, int depth) {
	auto buffer = std::make_unique<Buffer>();
	std::string model;
	size_t offset = 0;
	mc::describe(std::string(kind));
	compare(kind, *buffer, model);
	for (int i = 0; i < depth; i++) {
		int ops = int(lengths(Size).size()) + 4;
		int op = i == 0 ? unit : mc::choose(ops);
		if (op == ops - 1) {
			buffer->clear();
			model.clear();
			mc::describeMore(" clear");
		} else
			append(*buffer, model, Size, offset, op);
		if (!Expanding && model.size() > Size) model.resize(Size);
		compare(kind, *buffer, model);
	}
	mc::validated();
}

template <int Size>
void streaming(const char* kind, int unit, int depth) {
	std::string delivered, model;
	std::vector<size_t> chunks;
	auto sink = [&] (std::span<const char> data) {
		delivered.append(data.data(), data.size());
		chunks.push_back(data.size());
	};
	size_t offset = 0;
	mc::describe(std::string(kind));
	auto drive = [&] (auto& buffer) {
		for (int i = 0; i < depth; i++) {
			int ops = int(lengths(Size).size()) + 4;
			int op = i == 0 ? unit : mc::choose(ops);
			if (op == ops - 1) {
				buffer.flush();
				mc::describeMore(" flush");
				MC_CHECK(delivered == model, std::string("flush:") + kind, mc::fmt("after a flush, %zu bytes are delivered out of %zu", delivered.size(), model.size()));
			} else
				append(buffer, model, Size, offset, op);
			MC_CHECK(buffer.size() == int(model.size()), std::string("size:") + kind, mc::fmt("size() is %d, expected %zu", buffer.size(), model.size()));
			MC_CHECK(model.size() >= delivered.size() && std::string_view(model).substr(0, delivered.size()) == delivered,
					std::string("prefix:") + kind, "the delivered bytes are not a prefix of the appended ones");
			mc::step(mc::mix(mc::mix(mc::hash(delivered), model.size()), mc::hash(kind)));
		}
	};
	{
		auto buffer = std::make_unique<NonOwningStreamingBuffer<Size>>(sink);
		drive(*buffer);
	}
	MC_CHECK(delivered == model, std::string("delivered:") + kind, mc::fmt("%zu bytes were delivered, %zu were appended", delivered.size(), model.size()));
	for (size_t c : chunks)
		MC_CHECK(c <= size_t(Size), std::string("chunk:") + kind, "a chunk is larger than the buffer");
	mc::validated();
}

static int opsFor(int size) { return int(lengths(size).size()) + 4; }
static int depthFor(int size) { int d = size <= 8 ? 4 : 3; return mc::thorough() ? d + 1 : d; }

template <int Size>
struct All {
	static inline std::string n = std::to_string(Size);
	// The units are more than needed if the tier is quick
	static int units() { return opsFor(Size) + 3; }
	static bool skip(int unit) { return unit >= opsFor(Size); }
	mc::Register a{"expanding<" + n + ">", units(), [] (int u) { if (!skip(u)) holding<ExpandingBuffer<Size>, Size, true>("expanding", u, depthFor(Size)); }};
	mc::Register b{"expanding<" + n + ",vector>", units(), [] (int u) { if (!skip(u)) holding<ExpandingBuffer<Size, std::vector<char>>, Size, true>("expanding-vector", u, depthFor(Size)); }};
	mc::Register c{"fixed<" + n + ">", units(), [] (int u) { if (!skip(u)) holding<NonExpandingBuffer<Size>, Size, false>("fixed", u, depthFor(Size)); }};
	mc::Register d{"streaming<" + n + ">", units(), [] (int u) { if (!skip(u)) streaming<Size>("streaming", u, depthFor(Size)); }};
};
static All<1> s1;
static All<2> s2;
static All<3> s3;
static All<8> s8;
static All<64> s64;
static All<1024> s1024;

// Appended data that are larger than what an int can hold, not backed by memory except for the marked ends
#include <sys/mman.h>
static mc::Register enormous("enormous appended data", 8, [] (int unit) {
	static const uint64_t lengths[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 1, (1ull << 32) + 100, 3000000000ull};
	uint64_t length = lengths[unit];
	int before = mc::choose(2) * 5, what = mc::choose(2), pieces = 1 + mc::choose(2);
	mc::describe(mc::fmt("%s: %d bytes, then %llu in %d pieces", what ? "streaming" : "fixed", before, (unsigned long long)length, pieces));
	void* mapped = mmap(nullptr, length, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mapped == MAP_FAILED) { mc::count("not enough memory"); return; }
	char* data = static_cast<char*>(mapped);
	memcpy(data, "begins", 6);
	memcpy(data + length - 4, "ends", 4);
	auto feed = [&] (auto& buffer) {
		if (before) buffer += std::string_view("first");
		uint64_t first = pieces == 1 ? length : length - 3;
		buffer += std::string_view(data, first);
		if (first < length) buffer += std::span<const char>(data + first, length - first);
	};
	if (what == 0) {
		NonExpandingBuffer<64> buffer;
		feed(buffer);
		std::string expected = std::string(before ? "first" : "") + "begins";
		expected.resize(64);
		MC_CHECK(std::string_view(buffer) == expected, "enormous:fixed", "holds " + mc::quoted(std::string_view(buffer), 80));
	} else {
		uint64_t delivered = 0;
		std::string start, end;
		{
			auto sink = [&] (std::span<const char> part) {
				delivered += part.size();
				if (start.size() < 11) start.append(part.data(), std::min<size_t>(part.size(), 11 - start.size()));
				end.append(part.data() + part.size() - std::min<size_t>(part.size(), 4), std::min<size_t>(part.size(), 4));
				if (end.size() > 4) end.erase(0, end.size() - 4);
			};
			NonOwningStreamingBuffer<65536> buffer(sink);
			feed(buffer);
			MC_CHECK(uint64_t(buffer.size()) == before + length, "enormous:size", mc::fmt("size() is %lld", (long long)buffer.size()));
		}
		MC_CHECK(delivered == before + length, "enormous:delivered", mc::fmt("%llu bytes were delivered", (unsigned long long)delivered));
		MC_CHECK(start.substr(0, before + 6) == (before ? "firstbegins" : "begins"), "enormous:start", "the delivered data start with " + mc::quoted(start, 20));
		MC_CHECK(end == "ends", "enormous:end", "the delivered data end with " + mc::quoted(end, 20));
	}
	munmap(mapped, length);
	mc::step(mc::fmt("%d %d %d %llu", before, what, pieces, (unsigned long long)length));
	mc::validated();
});
