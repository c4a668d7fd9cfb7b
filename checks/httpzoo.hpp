// Requests to HTTP servers, what they should cause, and a strict parser of responses
#ifndef HTTPZOO_HPP
#define HTTPZOO_HPP
#include "mc.hpp"
#include "rpczoo.hpp"
#include "bomba_http.hpp"
#include <optional>
#include <string>
#include <vector>

namespace httpzoo {
using namespace Bomba;
using namespace rpczoo;

// Contents of a produced body, with everything that could confuse a parser
inline std::string content(size_t size) {
	static const std::string piece = "HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabc\0GET /k1 HTTP/1.1\r\n\r\n{}&\xff\x80";
	std::string r;
	while (r.size() < size) r += piece;
	r.resize(size);
	return r;
}

struct Response {
	int status = 0;
	std::optional<std::string> type;
	std::string body;
	bool operator==(const Response&) const = default;
	std::string text() const { return mc::fmt("%d ", status) + type.value_or("(no type)") + " " + mc::quoted(body, 100); }
};
// Parses a stream of responses, strictly
struct ResponseParser {
	std::vector<Response> responses;
	std::string problem;
	std::string_view rest; // An incomplete response
	explicit ResponseParser(std::string_view in) {
		while (!in.empty()) {
			rest = in;
			Response made;
			auto line = [&] (std::string& out) {
				size_t end = in.find("\r\n");
				if (end == std::string_view::npos) return false;
				out = std::string(in.substr(0, end));
				in.remove_prefix(end + 2);
				return true;
			};
			std::string got;
			if (!line(got)) return;
			if (got.size() < 13 || got.substr(0, 9) != "HTTP/1.1 " || got[12] != ' ') { problem = "wrong status line " + mc::quoted(got, 100); return; }
			for (int i = 9; i < 12; i++) if (got[i] < '0' || got[i] > '9') problem = "wrong status code " + mc::quoted(got, 100);
			made.status = atoi(got.substr(9, 3).c_str());
			if (made.status < 200 || made.status > 599) problem = "wrong status code " + mc::quoted(got, 100);
			for (unsigned char c : got) if (c < 0x20 || c > 0x7e) problem = "wrong character in the status line";
			std::optional<long> length;
			while (true) {
				if (!line(got)) return;
				if (got.empty()) break;
				size_t colon = got.find(':');
				if (colon == std::string::npos || colon == 0) { problem = "wrong header " + mc::quoted(got, 100); return; }
				std::string name = got.substr(0, colon), value = got.substr(colon + 1);
				for (char& c : name) {
					if (!isalnum((unsigned char)c) && c != '-') problem = "wrong name of header " + mc::quoted(name, 100);
					c = char(tolower(c));
				}
				for (unsigned char c : value) if ((c < 0x20 && c != '\t') || c == 0x7f) problem = "wrong character in a header " + mc::quoted(got, 100);
				while (!value.empty() && (value[0] == ' ' || value[0] == '\t')) value.erase(0, 1);
				while (!value.empty() && (value.back() == ' ' || value.back() == '\t')) value.pop_back();
				if (name == "content-length") {
					if (length) problem = "repeated Content-Length";
					if (value.empty() || value.size() > 10) problem = "wrong Content-Length " + mc::quoted(value);
					for (char c : value) if (c < '0' || c > '9') problem = "wrong Content-Length " + mc::quoted(value);
					length = atol(value.c_str());
				} else if (name == "content-type") {
					if (made.type) problem = "repeated Content-Type";
					made.type = value;
				} else if (name == "transfer-encoding") problem = "unexpected header " + mc::quoted(got, 100);
			}
			if (!problem.empty()) return;
			if (made.status != 204) {
				if (!length) { problem = "no Content-Length"; return; }
				if (long(in.size()) < *length) return;
				made.body = std::string(in.substr(0, *length));
				in.remove_prefix(*length);
			} else if (length.value_or(0) != 0) { problem = "no content has a size"; return; }
			responses.push_back(std::move(made));
			rest = in;
		}
	}
};

struct Outcome {
	Response response;
	bool anyBody = false; // Error page
	bool closes = false;
	bool prefixOnly = false; // It fails in the middle, any proper part of the response can be sent
	bool lies = false; // Only closing is expected
	bool processed = true;
};

// What a path is asked to do is written in it:
// /k12 a body of known size, /u12 of unknown size, n not found, e nothing written, x exception,
// /K12 /U12 throws an exception after those bytes, /S12 body shorter than announced, /L12 body longer, /F12 writes all but returns false
inline size_t numberIn(std::string_view path) {
	size_t made = path.size() > 2 ? strtoul(std::string(path.substr(2)).c_str(), nullptr, 10) : 0;
	return made > 1000000 ? 7 : made;
}
constexpr size_t excess = 2000;
inline std::string typeFor(std::string_view path) { return path.size() % 2 ? "text/html" : "application/vnd.something-long+json; charset=utf-8"; }

inline bool act(std::string_view path, std::string_view type, std::string_view extra, IWriteStarter& writer) {
	char what = path.size() > 1 ? path[1] : 'n';
	size_t number = numberIn(path);
	std::string body = content(number) + std::string(extra);
	size_t rounds = 0;
	auto append = [&] (GeneralisedBuffer& out, size_t limit) {
		size_t sent = 0;
		while (sent < limit && sent < body.size()) {
			size_t now = std::min<size_t>(limit - sent, 1 + (rounds * rounds * 37) % 700);
			now = std::min(now, body.size() - sent);
			rounds++;
			if (now == 1) out += body[sent];
			else out += std::string_view(body).substr(sent, now);
			sent += now;
		}
	};
	switch (what) {
	case 'k': writer.writeKnownSize(type, body.size(), [&] (GeneralisedBuffer& out) { append(out, body.size()); }); return true;
	case 'u': writer.writeUnknownSize(type, [&] (GeneralisedBuffer& out) { append(out, body.size()); }); return true;
	case 'e': return true;
	case 'x': throw std::runtime_error("failing");
	case 'i': throw 3;
	case 'K': body += content(excess); writer.writeKnownSize(type, body.size(), [&] (GeneralisedBuffer& out) { append(out, number); throw std::runtime_error("failing late"); }); return true;
	case 'U': writer.writeUnknownSize(type, [&] (GeneralisedBuffer& out) { append(out, number); throw std::runtime_error("failing late"); }); return true;
	case 'S': writer.writeKnownSize(type, body.size() + 1 + number % 3, [&] (GeneralisedBuffer& out) { append(out, body.size()); }); return true;
	case 'L': body += content(number % 3 + 1); writer.writeKnownSize(type, body.size() - 1 - number % 3, [&] (GeneralisedBuffer& out) { append(out, body.size()); }); return true;
	case 'F': writer.writeKnownSize(type, body.size(), [&] (GeneralisedBuffer& out) { append(out, body.size()); }); return false;
	}
	return false;
}
inline Outcome actModel(bool isPost, std::string_view path, std::string_view type, std::string_view extra) {
	Outcome r;
	char what = path.size() > 1 ? path[1] : 'n';
	size_t number = numberIn(path);
	std::string body = content(number) + std::string(extra);
	switch (what) {
	case 'F': r.closes = true; [[fallthrough]];
	case 'k': case 'u': r.response = {200, std::string(type), body}; return r;
	case 'e': r.response = {204, std::nullopt, ""}; return r;
	case 'x': case 'i': case 'U': r.response.status = 500; r.anyBody = true; return r;
	case 'K': r.response = {200, std::string(type), body + content(excess)}; r.closes = r.prefixOnly = true; return r;
	case 'S': case 'L': r.closes = r.lies = true; r.response.status = 200; return r;
	}
	r.response.status = isPost ? 400 : 404;
	r.anyBody = true;
	return r;
}

struct Getter : IHttpGetResponder {
	bool get(std::string_view path, IWriteStarter& writer) override {
		called("get", std::string(path));
		return act(path, typeFor(path), "", writer);
	}
};
struct Poster : IHttpPostResponder {
	bool post(std::string_view path, std::string_view bodyType, std::span<char> body, IWriteStarter& writer) override {
		std::string extra(body.data(), body.size());
		called("post", std::string(path), std::string(bodyType), extra);
		return act(path, typeFor(path), "[" + std::string(bodyType) + "]" + extra, writer);
	}
};

struct Request {
	std::string method, path, protocol, body;
	std::optional<std::string> type;
	bool close = false;
	std::string text; // As sent
};

// What the server with Getter and Poster should do
inline Outcome expect(const Request& r, std::vector<std::string>& log) {
	Outcome made;
	if ((r.method == "GET" || r.method == "POST") && (r.protocol == "HTTP/1.1" || r.protocol == "HTTP/1.0")) {
		if (r.method == "GET") {
			log.push_back(callText("get", r.path));
			made = actModel(false, r.path, typeFor(r.path), "");
		} else {
			log.push_back(callText("post", r.path, r.type.value_or(""), r.body));
			made = actModel(true, r.path, typeFor(r.path), "[" + r.type.value_or("") + "]" + r.body);
		}
	} else {
		made.response.status = 501;
		made.anyBody = true;
	}
	if (r.close) made.closes = true;
	return made;
}

// Feeds a stream in chunks ending at the given places, like the TCP server does
template <typename Session>
struct Fed {
	std::string output, unread;
	bool dropped = false, broken = false;
	size_t reactions = 0;
	std::vector<size_t> consumed; // How much each response took
	std::function<void(size_t callsBefore, std::string_view output, ServerReaction)> watch;

	void feed(Session& session, std::string_view stream, const std::vector<size_t>& ends) {
		size_t fed = 0;
		for (size_t i = 0; i <= ends.size() && !dropped && !broken; i++) {
			size_t end = i < ends.size() ? ends[i] : stream.size();
			unread += stream.substr(fed, end - fed);
			fed = end;
			while (!unread.empty()) {
				Exact exact(unread);
				std::pair<ServerReaction, int64_t> reaction;
				size_t before = output.size(), callsBefore = calls.size();
				try {
					reaction = session.respond(exact.span(), [&] (std::span<const char> written) {
						output.append(written.data(), written.size());
					});
				} catch (std::exception& e) {
					mc::fail("exception", std::string("an exception escaped from the server: ") + e.what());
					broken = true;
					return;
				} catch (...) {
					mc::fail("exception", "something else escaped from the server");
					broken = true;
					return;
				}
				reactions++;
				mc::step(mc::mix(mc::hash(unread), mc::mix(int(reaction.first), output.size())));
				if (watch) watch(callsBefore, std::string_view(output).substr(before), reaction.first);
				if (reaction.first == ServerReaction::OK) {
					if (reaction.second <= 0 || reaction.second > int64_t(unread.size())) {
						mc::fail("consumed", mc::fmt("%lld of %zu bytes were consumed", (long long)reaction.second, unread.size()));
						broken = true;
						return;
					}
					consumed.push_back(reaction.second);
					unread.erase(0, reaction.second);
				} else if (reaction.first == ServerReaction::READ_ON) {
					MC_CHECK(output.size() == before, "response-to-incomplete", "a response was sent to an incomplete request");
					MC_CHECK(calls.size() == callsBefore, "call-by-incomplete", "a method was run by an incomplete request");
					MC_CHECK(reaction.second >= 0 && reaction.second <= int64_t(unread.size()), "consumed", "the position of reading is outside");
					break;
				} else if (reaction.first == ServerReaction::DISCONNECT) {
					dropped = true;
					return;
				} else {
					mc::fail("reaction", "the reaction is something else");
					broken = true;
					return;
				}
			}
		}
	}
};

// Compares the responses with the expected ones
inline void compare(const std::string& output, bool dropped, const std::vector<Outcome>& outcomes) {
	ResponseParser parsed(output);
	MC_CHECK(parsed.problem.empty(), "malformed-response", parsed.problem + " in " + mc::quoted(output, 300));
	if (mc::failed()) return;
	size_t expected = 0;
	for (auto& it : outcomes) {
		if (it.lies) {
			MC_CHECK(dropped, "wrong-size-continues", "the connection continues after a response of wrong size");
			return;
		}
		if (it.prefixOnly) {
			MC_CHECK(dropped, "failed-continues", "the connection continues after a response that could not be finished");
			MC_CHECK(parsed.responses.size() == expected, "failed-response", "a response that failed was followed by something or finished");
			if (!parsed.rest.empty()) {
				size_t split = parsed.rest.find("\r\n\r\n");
				if (split != std::string_view::npos)
					MC_CHECK(it.response.body.starts_with(parsed.rest.substr(split + 4)), "failed-response", "something else was sent after a part of the response: " + mc::quoted(parsed.rest.substr(split + 4), 200));
			}
			return;
		}
		MC_CHECK(parsed.responses.size() > expected, "missing-response", mc::fmt("response %zu is missing, it should be ", expected) + it.response.text() + ", there is " + mc::quoted(parsed.rest, 100));
		if (mc::failed()) return;
		auto& got = parsed.responses[expected];
		MC_CHECK(got.status == it.response.status, "status", mc::fmt("response %zu is ", expected) + got.text() + " instead of " + it.response.text());
		if (!it.anyBody)
			MC_CHECK(got == it.response, "response", mc::fmt("response %zu is ", expected) + got.text() + " instead of " + it.response.text());
		expected++;
		if (it.closes) break;
	}
	MC_CHECK(parsed.responses.size() == expected, "excess-response", mc::fmt("there are %zu responses instead of %zu, the last one is ", parsed.responses.size(), expected)
			+ (parsed.responses.empty() ? "none" : parsed.responses.back().text()));
	MC_CHECK(parsed.rest.empty(), "excess-output", "there is something after the responses: " + mc::quoted(parsed.rest, 100));
}

inline const std::vector<std::string>& methods() {
	static const std::vector<std::string> made = {"GET", "POST", "PUT", "DELETE", "OPTIONS", "get", "GETX", "G"};
	return made;
}
// A request with a form given by the choices
struct Style {
	std::string lengthName = "Content-Length", colon = ": ", lengthSuffix, typeName = "Content-Type";
	std::vector<std::string> before, after; // Other headers
	bool typeFirst = false;
};
inline void compose(Request& r, const Style& s, bool sendLength) {
	r.text = r.method + " " + r.path + " " + r.protocol + "\r\n";
	for (auto& it : s.before) r.text += it + "\r\n";
	auto length = [&] { if (sendLength) r.text += s.lengthName + s.colon + std::to_string(r.body.size()) + s.lengthSuffix + "\r\n"; };
	if (!s.typeFirst) length();
	if (r.type) r.text += s.typeName + s.colon + *r.type + "\r\n";
	if (s.typeFirst) length();
	for (auto& it : s.after) r.text += it + "\r\n";
	if (r.close) r.text += "Connection: close\r\n";
	r.text += "\r\n" + r.body;
}
} // namespace httpzoo
#endif
