// A remote object behind a client, a simulated network and a peer that answers by an independent implementation of the protocols
#ifndef REMOTEZOO_HPP
#define REMOTEZOO_HPP
#include "fakenet.hpp"
#include "rpczoo.hpp"
#include "bomba_sync_client.hpp"
#include "bomba_http.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
#include <memory>

namespace remotezoo {
using namespace rpczoo;

enum Kind { JsonRpc, PlainHttp, Binary1, Binary2, Binary4, kindCount };
inline const char* kindName(Kind k) {
	static const char* const names[] = {"JSON-RPC", "plain HTTP", "binary with 8 bit sizes", "binary with 16 bit sizes", "binary with 32 bit sizes"};
	return names[k];
}
inline bool isBinary(Kind k) { return k >= Binary1; }
inline int sizeWidth(Kind k) { return k == Binary1 ? 1 : k == Binary2 ? 2 : 4; }
// Plain HTTP has no structured results and not every protocol can hold a long one
inline bool possible(Kind k, const Sample& s) {
	if (k == PlainHttp) return s.urlEncodable && (s.isVoid || s.throws || (s.result.kind != Node::Arr && s.result.kind != Node::Obj && s.result.kind != Node::Null));
	if (k == Binary1) {
		for (auto& it : s.args) if (show(it).size() > 150) return false;
		return s.binaryArgs[1].size() < 200 && s.binaryResult[1].size() < 200;
	}
	return true;
}

struct Received { // A request
	bool okay = false;
	std::string problem;
	std::string method;
	int64_t id = 0;
	std::string text;
};

inline std::string percent(std::string_view s) {
	std::string r;
	for (unsigned char c : s) {
		if (c == '&') r += "%26"; // Must not be followed by # unless it's an entity
		else if (isalnum(c)) r += char(c);
		else if (c < 0x80) r += mc::fmt("%%%02x", c);
		else r += char(c); // Not needed
	}
	return r;
}
inline std::string urlText(const Node& n) {
	switch (n.kind) {
	case Node::Bool: return n.b ? "true" : "false";
	case Node::Int: return intText(n.i);
	case Node::Float: return percent(mc::fmt("%.17g", n.d));
	case Node::Str: return percent(n.s);
	default: return "";
	}
}
inline std::string http(int status, std::string_view reason, std::string_view type, std::string_view body, int style = 0) {
	std::string length = std::to_string(body.size());
	std::string r = mc::fmt("HTTP/1.1 %d ", status) + std::string(reason) + "\r\n";
	std::string t = type.empty() ? "" : "Content-Type: " + std::string(type) + "\r\n";
	switch (style) {
	case 0: r += "Content-Length: " + length + "\r\n" + t; break;
	case 1: r += t + "content-length:" + length + "\r\n"; break;
	case 2: r += "Server: x\r\nContent-Length: " + length + "  \r\nDate: Content-Length: 3\r\n" + t; break;
	case 3: r += "Content-Length: " + length + "       \r\nX-Empty:\r\n" + t; break;
	}
	return r + "\r\n" + std::string(body);
}
constexpr int httpStyles = 4;
// JSON-RPC responses with the members in any order
inline std::string jsonRpcBody(int64_t id, const std::string& outcome, int style = 0) {
	std::string version = "\"jsonrpc\":\"2.0\"", idText = "\"id\":" + std::to_string(id);
	switch (style) {
	case 0: return "{" + version + "," + idText + "," + outcome + "}";
	case 1: return "{" + outcome + "," + idText + "," + version + "}";
	case 2: return "{ " + idText + " ,\r\n\t" + outcome + " , " + version + " }\n";
	case 3: return " {" + version + ",\n" + outcome + "," + idText + "\n}";
	}
	return "";
}
constexpr int bodyStyles = 4;

struct World {
	fakenet::Use use; // First, so that it outlives the others
	Kind kind;
	Calc remote;
	std::shared_ptr<fakenet::Connection> connection = std::make_shared<fakenet::Connection>();
	std::unique_ptr<SyncNetworkClient> tcp;
	std::shared_ptr<void> owner; // The client
	HttpClient<>* httpClient = nullptr;

	std::string stream; // All responses
	size_t delivered = 0; // How much of it reached the machine
	std::vector<size_t> ends; // Of responses
	std::vector<Received> requests;
	size_t parsed = 0; // Bytes of requests
	std::function<std::string(int index, const Received&)> answer; // Empty if there's nothing to answer
	std::function<size_t(size_t remaining)> onWaiting; // How much more to deliver
	bool polling = false;
	int connections = 0;
	bool closeAfterAll = false;

	explicit World(Kind kind) : kind(kind) {
		use.made.onConnect = [this] (int& error) -> std::shared_ptr<fakenet::Connection> {
			if (connections++ > 0) { error = ECONNREFUSED; return nullptr; }
			return connection;
		};
		connection->onSent = [this] { receive(); };
		connection->onWaiting = [this] {
			if (polling) {
				mc::fail("poll-blocks", "asking if the result is available would wait for data");
				return false;
			}
			size_t remaining = stream.size() - delivered;
			if (remaining == 0) {
				if (closeAfterAll && !connection->remoteClosed) { connection->remoteClosed = true; return true; }
				return false;
			}
			deliver(onWaiting ? std::max<size_t>(1, std::min(remaining, onWaiting(remaining))) : remaining);
			return true;
		};
		tcp = std::make_unique<SyncNetworkClient>("host", "8080");
		switch (kind) {
		case JsonRpc: owner = std::make_shared<JsonRpcClient<>>(remote, *tcp, "host"); break;
		case PlainHttp: {
			auto made = std::make_shared<HttpClient<>>(*tcp, "host");
			httpClient = made.get();
			remote.setResponder(*made);
			owner = made;
			break;
		}
		case Binary1: owner = std::make_shared<BinaryProtocolClient<uint8_t>>(remote, *tcp); break;
		case Binary2: owner = std::make_shared<BinaryProtocolClient<uint16_t>>(remote, *tcp); break;
		case Binary4: owner = std::make_shared<BinaryProtocolClient<uint32_t>>(remote, *tcp); break;
		default: break;
		}
	}
	void deliver(size_t size) {
		size = std::min(size, stream.size() - delivered);
		connection->toLocal.append(stream, delivered, size);
		delivered += size;
	}
	void deliverTo(size_t position) { if (position > delivered) deliver(position - delivered); }
	bool arrived(size_t index) const { return index < ends.size() && ends[index] <= delivered; }
	size_t begin(size_t index) const { return index ? ends[index - 1] : 0; }

	void respond(const std::string& text) {
		stream += text;
		ends.push_back(stream.size());
	}
	void receive() {
		Received got;
		while (next(got)) {
			requests.push_back(got);
			if (!got.okay) mc::fail("request", "a request is wrong: " + got.problem + " " + mc::quoted(got.text, 300));
			if (answer) respond(answer(int(requests.size()) - 1, got));
		}
	}
	bool next(Received& got) {
		got = Received();
		std::string_view in = std::string_view(connection->sent).substr(parsed);
		if (isBinary(kind)) {
			int width = sizeWidth(kind);
			if (in.size() < size_t(4 + width)) return false;
			uint32_t id = 0;
			memcpy(&id, in.data(), 4);
			uint64_t size = 0;
			memcpy(&size, in.data() + 4, width);
			if (size <= size_t(4 + width)) { got.problem = "too small"; got.text = in; parsed += in.size(); return true; }
			if (in.size() < size) return false;
			got.text = in.substr(0, size);
			got.id = id;
			int index = (unsigned char)in[4 + width];
			if (index >= methodCount) got.problem = "unknown method";
			else {
				BinaryRef body{in.substr(5 + width, size - 5 - width), width};
				auto sample = decodeCall(index, body);
				if (!sample || !body.in.empty()) got.problem = "wrong arguments";
				else { got.okay = true; got.method = sample->log; }
			}
			parsed += size;
			return true;
		}
		size_t end = in.find("\r\n\r\n");
		if (end == std::string_view::npos) return false;
		size_t place = in.find("Content-Length:");
		size_t length = place < end ? atoi(std::string(in.substr(place + 15, end - place - 15)).c_str()) : 0;
		if (in.size() < end + 4 + length) return false;
		got.text = in.substr(0, end + 4 + length);
		parsed += got.text.size();
		if (kind == PlainHttp) {
			size_t from = got.text.find(" /"), to = got.text.find(" HTTP/1.1\r\n");
			if (from == std::string::npos || to == std::string::npos || to < from + 2) { got.problem = "wrong first line"; return true; }
			got.method = got.text.substr(from + 2, to - from - 2);
			got.okay = true;
			return true;
		}
		std::string_view body = std::string_view(got.text).substr(end + 4);
		StrictJson parser(body);
		Node document;
		if (!parser.document(document) || document.kind != Node::Obj) { got.problem = "wrong JSON"; return true; }
		bool hasId = false, hasMethod = false;
		for (auto& [key, value] : document.o) {
			if (key == "id" && value.kind == Node::Int) { got.id = int64_t(value.i); hasId = true; }
			if (key == "method" && value.kind == Node::Str) { got.method = value.s; hasMethod = true; }
		}
		got.okay = hasId && hasMethod;
		if (!got.okay) got.problem = "no id or method";
		return true;
	}

	// The correct response
	std::string right(const Sample& s, const Received& request, int style = 0) const {
		switch (kind) {
		case JsonRpc: return http(200, "OK", "application/json", jsonRpcBody(request.id, "\"result\":" + jsonText(s.isVoid ? Node::null() : s.result), style % bodyStyles), style / bodyStyles % httpStyles);
		case PlainHttp:
			if (s.isVoid && style % 2 == 0) return "HTTP/1.1 204 No Content\r\n\r\n";
			return http(200, "OK", "application/x-www-form-urlencoded", urlText(s.result), style % httpStyles);
		default: return binary(request.id, s.binaryResult[sizeWidth(kind)]);
		}
	}
	std::string binary(int64_t id, std::string_view result) const {
		std::string r;
		int width = sizeWidth(kind);
		putLE(r, uint32_t(id));
		putSize(r, 4 + width + result.size(), width);
		return r + std::string(result);
	}
	int styles() const { return kind == JsonRpc ? bodyStyles * httpStyles : kind == PlainHttp ? httpStyles : 1; }

	// Outcomes of fetching
	enum Outcome { Value, Error, Waits, Odd };
	static Outcome fetch(const std::function<Node()>& get, Node& value, std::string& problem) {
		try {
			value = get();
			return Value;
		} catch (fakenet::Blocked&) {
			problem = "it would wait forever";
			return Waits;
		} catch (std::exception& e) {
			problem = e.what();
			return Error;
		} catch (...) {
			problem = "unknown exception";
			return Odd;
		}
	}
	bool poll(AnyFuture& future) {
		polling = true;
		bool ready = future.ready();
		polling = false;
		return ready;
	}
};
} // namespace remotezoo
#endif
