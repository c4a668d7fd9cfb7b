// C17: JSON-RPC 2.0 requests in all forms against a model of the specification
#include "httpzoo.hpp"
#include "bomba_json_rpc.hpp"
using namespace httpzoo;

struct Tree {
	DynamicRpcObject root, inner;
	Calc calc, deep;
	Tree() {
		inner.add("calc", RpcLambdaHolder::nonOwning(deep));
		root.add("calc", RpcLambdaHolder::nonOwning(calc));
		root.add("inner", RpcLambdaHolder::nonOwning(inner));
		root.add("add", [] (int32_t a = name("a"), int32_t b = name("b")) { called("top.add", a, b); return pureAdd(a, b); });
	}
};
static Tree& tree() { static Tree* made = new Tree; return *made; }

// Sends a body, returns the body of the response
static bool exchange(std::string_view body, std::string& response) {
	static JsonRpcServer<>* server = new JsonRpcServer<>(tree().root);
	auto session = server->getSession();
	calls.clear();
	std::string request = mc::fmt("POST / HTTP/1.1\r\nContent-Type: application/json\r\nContent-Length: %zu\r\n\r\n", body.size()) + std::string(body);
	Exact exact(request);
	std::string out;
	auto [reaction, size] = session.respond(exact.span(), [&] (std::span<const char> written) { out.append(written.data(), written.size()); });
	MC_CHECK(reaction == ServerReaction::OK && size == int64_t(request.size()), "reaction", "the server did not process the request " + mc::quoted(body, 300));
	ResponseParser parser(out);
	MC_CHECK(parser.problem.empty() && parser.rest.empty() && parser.responses.size() == 1, "http", "the HTTP response is wrong: " + parser.problem + mc::quoted(out, 300));
	if (mc::failed()) return false;
	auto& got = parser.responses[0];
	if (got.status == 400) { response = "400"; return true; }
	MC_CHECK(got.status == 200 || got.status == 204, "http-status", mc::fmt("the status is %d", got.status));
	if (got.status == 200) MC_CHECK(got.type == "application/json", "http-type", "the content type is " + got.type.value_or("none"));
	response = got.body;
	return !mc::failed();
}
static bool blank(std::string_view s) {
	for (char c : s) if (!isspace((unsigned char)c)) return false;
	return true;
}

// What should come out of a request
struct Expected {
	bool notification = false;
	bool error = false;
	bool anyId = false; // Of an error
	Node id;
	std::vector<int> codes; // Empty if not specified
	Node result;
	std::vector<std::string> log;
};
// Returns what's wrong
static std::string compareOne(const Node& got, const Expected& e) {
	if (got.kind != Node::Obj) return "the response is not an object";
	const Node* version = got.find("jsonrpc");
	const Node* id = got.find("id");
	const Node* result = got.find("result");
	const Node* error = got.find("error");
	if (got.o.size() != 3) return "the response has other members than it should";
	if (!version || version->kind != Node::Str || version->s != "2.0") return "the version is wrong";
	if (!id) return "there is no identifier";
	if (!(e.anyId && id->kind == Node::Null) && !(sameNode(*id, e.id))) return "the identifier is " + show(*id) + " instead of " + show(e.id);
	if (!result == !error) return "there is not exactly one of result and error";
	if (e.error) {
		if (!error) return "there is the result " + show(*result) + " instead of an error";
		const Node* code = error->kind == Node::Obj ? error->find("code") : nullptr;
		const Node* message = error->kind == Node::Obj ? error->find("message") : nullptr;
		if (!code || code->kind != Node::Int || !message || message->kind != Node::Str) return "the error is not correctly written";
		for (auto& it : error->o) if (it.first != "code" && it.first != "message" && it.first != "data") return "unknown member of the error " + it.first;
		if (!e.codes.empty() && std::find(e.codes.begin(), e.codes.end(), int(code->i)) == e.codes.end()) return "the error code is " + intText(code->i);
	} else {
		if (!result) return "there is an error instead of a result";
		if (!sameNode(*result, e.result)) return "the result is " + show(*result) + " instead of " + show(e.result);
	}
	return "";
}
static void single(const std::string& body, const Expected& e) {
	std::string response;
	mc::step(body);
	if (!exchange(body, response)) return;
	MC_CHECK(calls == e.log, "calls", mc::fmt("%zu calls, ", calls.size()) + (calls.empty() ? "none" : calls[0]) + " instead of " + (e.log.empty() ? "none" : e.log[0]) + " by " + mc::quoted(body, 400));
	if (e.notification) {
		MC_CHECK(blank(response), "notification", "a notification got the response " + mc::quoted(response, 200) + " " + mc::quoted(body, 300));
		mc::validated();
		return;
	}
	StrictJson parser(response);
	Node got;
	bool valid = parser.document(got);
	MC_CHECK(valid, "invalid-response", "the response is not valid JSON: " + parser.error + " " + mc::quoted(response, 300));
	if (!valid) return;
	std::string problem = compareOne(got, e);
	MC_CHECK(problem.empty(), "response", problem + " in " + mc::quoted(response, 300) + " to " + mc::quoted(body, 400));
	mc::validated();
}

struct Member { std::string name, text; };
static std::string assemble(const std::vector<Member>& members, int style = 0) {
	std::string r = style == 1 ? "{ " : style == 2 ? "\n{\r\n" : "{";
	bool first = true;
	for (auto& it : members) {
		if (!first) r += style == 1 ? " , " : style == 2 ? ",\r\n\t" : ",";
		first = false;
		r += "\"" + it.name + (style == 1 ? "\" : " : style == 2 ? "\"\n:\t" : "\":") + it.text;
	}
	return r + (style == 1 ? " } " : style == 2 ? "\n}\n" : "}");
}

struct Id { std::string text; Node value; bool valid; };
static const std::vector<Id>& ids() {
	auto integer = [] (__int128 v) { return Id{intText(v), Node::integer(v), true}; };
	auto string = [] (std::string text, std::string v) { return Id{text, Node::string(v), true}; };
	static const std::vector<Id> made = {
		integer(1), integer(0), integer(-1), integer(INT32_MAX), integer(__int128(INT32_MAX) + 1), integer(UINT32_MAX), integer(__int128(UINT32_MAX) + 1), integer(INT64_MAX), integer(INT64_MIN), integer(1234567890123456789ll),
		string("\"\"", ""), string("\"a\"", "a"), string("\"1\"", "1"), string("\"null\"", "null"), string("\"a\\\"b\\\\\\n\\u0001\\u00e1\\ud83d\\ude00\"", "a\"b\\\n\x01\xc3\xa1\xf0\x9f\x98\x80"),
		string("\"" + std::string(3000, 'i') + "\"", std::string(3000, 'i')), string("\"{}[],:\\\"id\\\"\"", "{}[],:\"id\""), string("\"ch\xc5\x99\"", "ch\xc5\x99"),
		{"1.5", Node::floating(1.5), true}, {"-0.25", Node::floating(-0.25), true}, {"1e-7", Node::floating(1e-7), true}, {"1.5e300", Node::floating(1.5e300), true}, {"0.1", Node::floating(0.1), true},
		{"null", Node::null(), true},
		{"true", Node::null(), false}, {"false", Node::null(), false}, {"[]", Node::null(), false}, {"[1]", Node::null(), false}, {"{}", Node::null(), false}, {"{\"id\":1}", Node::null(), false},
	};
	return made;
}
struct Method { std::string text; std::optional<Sample> sample; std::string log; std::vector<int> codes; };
// What the tree answers
static Method methodIn(std::string prefix, Sample sample) { return {"\"" + prefix + sample.name + "\"", sample, sample.log, {}}; }
static std::string paramsOf(const Sample& s, const std::vector<int>& order = {}) {
	std::vector<Member> members;
	for (size_t i = 0; i < s.args.size(); i++) {
		size_t index = order.empty() ? i : order[i];
		members.push_back({s.argNames[index], jsonText(s.args[index])});
	}
	return assemble(members);
}
static Expected expectCall(const Sample& s, const Id* id, std::string log) {
	Expected e;
	e.log = {log};
	if (id) e.id = id->value;
	else e.notification = true;
	e.error = s.throws;
	if (s.throws) for (int i = -32099; i <= -32000; i++) e.codes.push_back(i);
	e.codes.push_back(-32603);
	if (!s.throws) e.codes.clear();
	e.result = s.isVoid ? Node::null() : s.result;
	if (id && !id->valid) { e.error = true; e.id = Node::null(); e.log.clear(); e.codes = {-32600}; }
	return e;
}

// Every method and value
static mc::Register methodsAndValues("every method with every value", methodCount * 4, [] (int u) {
	Sample s = anyCall(u / 4, mc::thorough() ? 1 : 2);
	if (s.result.kind == Node::Float && !std::isfinite(s.result.d)) return; // Not representable in JSON
	static const char* const prefixes[] = {"calc.", "inner.calc."};
	std::string prefix = prefixes[u % 2];
	bool notify = u % 4 / 2;
	mc::describe(prefix + s.text() + (notify ? " notification" : ""));
	std::vector<Member> members = {{"jsonrpc", "\"2.0\""}, {"method", "\"" + prefix + s.name + "\""}, {"params", paramsOf(s)}};
	if (!notify) members.insert(members.begin() + 1, {"id", "1"});
	single(assemble(members), expectCall(s, notify ? nullptr : &ids()[0], s.log));
});
// Identifiers with methods of all kinds
static mc::Register identifiers("every identifier", int(ids().size()), [] (int u) {
	const Id& id = ids()[u];
	std::vector<Sample> samples = {mAdd.with(3, 4), mStop.with(), mFail.with(-1), mEcho.with("\"id\":7,"), mNames.with({{"id", "5"}})};
	Sample& s = mc::pick(samples);
	std::vector<Member> members = {{"jsonrpc", "\"2.0\""}, {"id", id.text}, {"method", "\"calc." + s.name + "\""}, {"params", paramsOf(s)}};
	std::vector<int> order = {0, 1, 2, 3};
	for (int i = 0, n = mc::choose(24); i < n; i++) std::next_permutation(order.begin(), order.end());
	int style = mc::choose(3);
	std::vector<Member> shuffled;
	for (int it : order) shuffled.push_back(members[it]);
	std::string body = assemble(shuffled, style);
	mc::describe(mc::quoted(body, 400));
	single(body, expectCall(s, &id, s.log));
});
// All the ways a request may be put together
static mc::Register forms("every form of a request", 5 * 7, [] (int u) {
	static const int idIndexes[] = {-1, 0, 11, 22, 23};
	int idIndex = idIndexes[u % 5];
	const Id* id = idIndex < 0 ? nullptr : &ids()[idIndex];
	std::vector<Member> members;
	Expected e;
	if (id) e.id = id->value; else e.notification = true;
	bool anyCode = false;
	auto error = [&] (std::vector<int> codes, bool anyId = false) {
		if (codes.empty()) anyCode = true;
		e.codes.insert(e.codes.end(), codes.begin(), codes.end());
		if (anyCode) e.codes.clear();
		e.error = true;
		if (anyId) e.anyId = true;
	};
	Sample s = mAdd.with(5, -6);
	std::string params;
	bool anyProblem = false;
	// The method
	std::string path;
	switch (u / 5) {
	case 0: s = mAdd.with(5, -6); path = "\"calc.add\""; break;
	case 1: s = mStop.with(); path = "\"inner.calc.stop\""; break;
	case 2: s = mFail.with(-3); path = "\"calc.fail\""; break;
	case 3: s = mEcho.with("method"); path = "\"calc.echo\""; break;
	case 4: { // Unknown
		static const char* const unknown[] = {"\"calc.ad\"", "\"calc.addx\"", "\"add.calc\"", "\"calc\"", "\"inner\"", "\"inner.calc\"", "\"\"", "\".\"", "\"calc.\"", "\".calc.add\"", "\"calc..add\"", "\"calc.add.\"", "\"calc/add\"", "\"calc.add.a\"", "\"rpc.discover\"", "\"Calc.add\"", "\"calc.add \""};
		path = mc::pick(unknown);
		anyProblem = true;
		error({-32601});
		break;
	}
	case 5: { // Not a method
		static const char* const wrong[] = {"5", "null", "true", "[\"calc.add\"]", "{\"calc\":\"add\"}", "1.5"};
		path = mc::pick(wrong);
		anyProblem = true;
		error({});
		break;
	}
	case 6: // Absent
		anyProblem = true;
		error({});
		break;
	}
	// Arguments
	int paramKind = mc::choose(10);
	params = paramsOf(s);
	switch (paramKind) {
	case 0: break;
	case 1: { // The other way round
		std::vector<int> order(s.args.size());
		for (size_t i = 0; i < order.size(); i++) order[i] = int(order.size() - 1 - i);
		params = paramsOf(s, order);
		break;
	}
	case 2: case 3: { // None, they get default values
		params = paramKind == 2 ? "" : "{}";
		if (s.name == "add") s = mAdd.with(0, 0);
		if (s.name == "fail") s = mFail.with(0);
		if (s.name == "echo") s = mEcho.with("");
		break;
	}
	case 4: // Unknown ones around
		params = "{\"x\":[{}],\"\":null," + params.substr(1);
		if (s.args.empty()) params = "{\"x\":[{}],\"id\":7,\"method\":\"calc.number\"}";
		break;
	case 5: params = "5"; anyProblem = true; error({-32602, -32600, -32700}); break;
	case 6: params = "\"a\""; anyProblem = true; error({-32602, -32600, -32700}); break;
	case 7: params = "null"; anyProblem = true; error({-32602, -32600, -32700}); break;
	case 8: // Of other types
		if (s.args.empty()) return;
		params = s.name == "echo" ? "{\"text\":5}" : s.name == "add" ? "{\"a\":5,\"b\":\"x\"}" : "{\"when\":[]}";
		anyProblem = true;
		error({-32602, -32700});
		break;
	case 9: params = "true"; anyProblem = true; error({-32602, -32600, -32700}); break;
	}
	if (path.size()) members.push_back({"method", path});
	if (params.size()) members.push_back({"params", params});
	if (id) members.push_back({"id", id->text});
	// The version
	switch (mc::choose(6)) {
	case 0: case 1: members.push_back({"jsonrpc", "\"2.0\""}); break;
	case 2: members.push_back({"jsonrpc", "\"1.0\""}); anyProblem = true; error({}); break;
	case 3: members.push_back({"jsonrpc", "2.0"}); anyProblem = true; error({}, true); break;
	case 4: members.push_back({"jsonrpc", "null"}); anyProblem = true; error({}, true); break;
	case 5: members.push_back({"jsonrpc", "[\"2.0\"]"}); anyProblem = true; error({}, true); break;
	}
	if (anyProblem) {
		e.log.clear();
		if (!id && e.anyId) e.notification = false; // It may be reported or not
	} else {
		e = expectCall(s, id, s.log);
	}
	int orders = 1;
	for (size_t i = 2; i <= members.size(); i++) orders *= int(i);
	std::sort(members.begin(), members.end(), [] (auto& a, auto& b) { return a.name < b.name; });
	for (int i = 0, n = mc::choose(orders); i < n; i++) std::next_permutation(members.begin(), members.end(), [] (auto& a, auto& b) { return a.name < b.name; });
	std::string body = assemble(members, mc::choose(3));
	mc::describe(mc::quoted(body, 400));
	if (!id && e.anyId) { // An invalid request without an identifier may get a response that has null for it or none
		std::string response;
		mc::step(body);
		if (!exchange(body, response)) return;
		MC_CHECK(calls.empty(), "calls", "a wrong request ran a method " + mc::quoted(body, 300));
		if (!blank(response)) {
			StrictJson parser(response);
			Node got;
			MC_CHECK(parser.document(got), "invalid-response", "the response is not valid JSON: " + mc::quoted(response, 300));
			std::string problem = compareOne(got, e);
			MC_CHECK(problem.empty(), "response", problem + " in " + mc::quoted(response, 300) + " to " + mc::quoted(body, 400));
		}
		mc::validated();
		return;
	}
	single(body, e);
});

// Batches
struct Element { const char* text; Expected e; };
static std::vector<Element> elements() {
	auto good = [] (int id, Node result, std::vector<std::string> log) { Expected e; e.id = Node::integer(id); e.result = result; e.log = log; return e; };
	auto bad = [] (Node id, std::vector<int> codes, std::vector<std::string> log = {}) { Expected e; e.id = id; e.error = true; e.codes = codes; e.log = log; return e; };
	auto none = [] (std::vector<std::string> log) { Expected e; e.notification = true; e.log = log; return e; };
	auto any = [] { Expected e; e.error = true; e.anyId = true; return e; };
	Expected oddVersion = any(), oddId = bad(Node::null(), {-32600});
	oddVersion.id = Node::integer(4);
	return {
		{"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"calc.add\",\"params\":{\"a\":1,\"b\":2}}", good(1, Node::integer(3), {mAdd.with(1, 2).log})},
		{"{\"method\":\"inner.calc.echo\",\"params\":{\"text\":\"[,]{}\"},\"id\":2,\"jsonrpc\":\"2.0\"}", good(2, Node::string("[,]{}"), {mEcho.with("[,]{}").log})},
		{"{\"jsonrpc\":\"2.0\",\"method\":\"calc.stop\"}", none({mStop.with().log})},
		{"{\"jsonrpc\":\"2.0\",\"method\":\"calc.unknown\"}", none({})},
		{"{\"jsonrpc\":\"2.0\",\"method\":\"calc.fail\",\"params\":{\"when\":-1}}", none({mFail.with(-1).log})},
		{"{\"jsonrpc\":\"2.0\",\"id\":3,\"method\":\"calc.unknown\"}", bad(Node::integer(3), {-32601})},
		{"{\"jsonrpc\":\"2.0\",\"id\":\"f\",\"method\":\"calc.fail\",\"params\":{\"when\":-1}}", bad(Node::string("f"), {-32603}, {mFail.with(-1).log})},
		{"{\"jsonrpc\":\"1.0\",\"id\":4,\"method\":\"calc.stop\"}", bad(Node::integer(4), {-32600})},
		{"{\"jsonrpc\":2.0,\"id\":4,\"method\":\"calc.stop\"}", oddVersion},
		{"{\"jsonrpc\":\"2.0\",\"id\":[1],\"method\":\"calc.stop\"}", oddId},
		{"1", bad(Node::null(), {-32600})},
		{"\"text\"", bad(Node::null(), {-32600})},
		{"null", bad(Node::null(), {-32600})},
		{"[]", bad(Node::null(), {-32600})},
		{"[{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"calc.stop\"}]", bad(Node::null(), {-32600})},
		{"{}", [&] { Expected e = any(); e.notification = true; return e; }()},
		{"{\"jsonrpc\":\"2.0\",\"id\":5,\"method\":\"calc.add\",\"params\":{\"a\":[{\"x\":\"]\"}],\"b\":2}}", bad(Node::integer(5), {-32602, -32700})},
		{"{\"jsonrpc\":\"2.0\",\"id\":6,\"method\":5}", [&] { Expected e = any(); e.id = Node::integer(6); return e; }()},
		{"{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":\"calc.names\",\"params\":{\"names\":{\"a\":\"b\"}}}", good(7, [] { Node n = Node::object(); n.o = {{"a", Node::string("b")}, {"added", Node::string("x")}}; return n; }(), {mNames.with({{"a", "b"}}).log})},
	};
}
static void batch(const std::string& body, const std::vector<Expected>& expected) {
	std::string response;
	mc::step(body);
	if (!exchange(body, response)) return;
	std::vector<std::string> log;
	std::vector<const Expected*> due;
	bool optional = false; // Some may be answered or not
	for (auto& it : expected) {
		log.insert(log.end(), it.log.begin(), it.log.end());
		if (it.notification && it.error && it.anyId) optional = true;
		else if (!it.notification) due.push_back(&it);
	}
	MC_CHECK(calls == log, "batch-calls", mc::fmt("%zu calls instead of %zu by ", calls.size(), log.size()) + mc::quoted(body, 500));
	Node got;
	if (due.empty() && !expected.empty() && blank(response)) { mc::validated(); return; } // The specification wants nothing
	StrictJson parser(response);
	bool valid = parser.document(got);
	MC_CHECK(valid, "batch-invalid", "the response is not valid JSON: " + parser.error + " " + mc::quoted(response, 400));
	if (!valid) return;
	if (expected.empty()) { // An empty array is not a valid request
		Expected e;
		e.error = true;
		e.codes = {-32600};
		std::string problem = compareOne(got, e);
		MC_CHECK(problem.empty(), "batch-empty", problem + " in the response to an empty batch: " + mc::quoted(response, 200));
		return;
	}
	MC_CHECK(got.kind == Node::Arr, "batch-kind", "the response is not an array " + mc::quoted(response, 300));
	if (mc::failed()) return;
	MC_CHECK(!due.empty() || !got.a.empty(), "batch-nothing", "a batch of notifications got an empty array");
	MC_CHECK(got.a.size() == due.size() || (optional && got.a.size() > due.size() && got.a.size() <= expected.size()), "batch-size", mc::fmt("there are %zu responses instead of %zu in ", got.a.size(), due.size()) + mc::quoted(response, 400) + " to " + mc::quoted(body, 400));
	// They may be in any order
	std::vector<bool> used(got.a.size());
	for (auto it : due) {
		bool found = false;
		std::string problem;
		for (size_t i = 0; i < got.a.size() && !found; i++) if (!used[i]) {
			std::string p = compareOne(got.a[i], *it);
			if (p.empty()) { used[i] = true; found = true; }
			else if (problem.empty()) problem = p;
		}
		MC_CHECK(found, "batch-response", "a response is missing or wrong (" + problem + ") in " + mc::quoted(response, 500) + " to " + mc::quoted(body, 500));
	}
	mc::validated();
}
static mc::Register batches("batches", 19, [] (int u) {
	auto all = elements();
	std::vector<Expected> expected;
	int size = mc::thorough() ? 4 : 3;
	static const char* const separators[] = {",", " ,\n\t"};
	std::string separator = mc::pick(separators);
	std::string body = separator.size() > 1 ? " [\n" : "[";
	for (int i = 0; i < size; i++) {
		int which = i == 0 ? u : mc::choose(int(all.size()) + 1);
		if (which == int(all.size())) break;
		if (i) body += separator;
		body += all[which].text;
		expected.push_back(all[which].e);
	}
	body += separator.size() > 1 ? "\n] " : "]";
	mc::describe(mc::quoted(body, 500));
	batch(body, expected);
});
static mc::Register emptyBatch("empty batches", 4, [] (int u) {
	static const char* const bodies[] = {"[]", "[ ]", " [\r\n] ", "\n[\t\t]"};
	mc::describe(bodies[u]);
	batch(bodies[u], {});
});
static mc::Register longBatches("long batches", 60, [] (int u) {
	auto all = elements();
	std::vector<Expected> expected;
	std::string body = "[";
	int start = mc::choose(int(all.size()));
	for (int i = 0; i < u * 3 + 4; i++) {
		if (i) body += ",";
		auto& it = all[(start + i * (u % 7 + 1)) % all.size()];
		body += it.text;
		expected.push_back(it.e);
	}
	body += "]";
	mc::describe(mc::fmt("%d requests from %d", u * 3 + 4, start));
	batch(body, expected);
});

// Requests that are not JSON: nothing is run and there's an error
static void malformed(const std::string& body) {
	std::string response;
	mc::step(body);
	if (!exchange(body, response)) return;
	MC_CHECK(calls.empty(), "malformed-calls", "a malformed request ran " + (calls.empty() ? "" : calls[0]) + ": " + mc::quoted(body, 400));
	if (response == "400") { mc::validated(); return; }
	StrictJson parser(response);
	Node got;
	bool valid = parser.document(got);
	MC_CHECK(valid, "invalid-response", "the response is not valid JSON: " + mc::quoted(response, 300) + " to " + mc::quoted(body, 300));
	if (!valid) return;
	if (got.kind == Node::Arr && got.a.size() == 1) got = Node(got.a[0]);
	Expected e;
	e.error = true;
	e.anyId = true;
	if (const Node* id = got.find("id")) e.id = *id;
	std::string problem = compareOne(got, e);
	MC_CHECK(problem.empty(), "malformed-response", problem + " in " + mc::quoted(response, 300) + " to " + mc::quoted(body, 300));
	mc::validated();
}
static const std::vector<std::string>& wholeRequests() {
	static const std::vector<std::string> made = {
		"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"calc.add\",\"params\":{\"a\":1,\"b\":2}}",
		"{\"params\":{\"text\":\"a\\\"\\u00e1\"},\"method\":\"calc.echo\",\"id\":\"x\",\"jsonrpc\":\"2.0\"}",
		"{\"method\":\"calc.each\",\"id\":-1.5,\"params\":{\"list\":[1,[],2],\"negate\":true},\"jsonrpc\":\"2.0\"}",
		"{\"jsonrpc\":\"2.0\",\"method\":\"calc.stop\"}",
		"{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"calc.swap\",\"params\":{\"pair\":{\"a\":1,\"b\":\"x\"}}}",
		"[{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"calc.stop\"}]",
	};
	return made;
}
static mc::Register cut("requests cut anywhere", 6, [] (int u) {
	const std::string& whole = wholeRequests()[u];
	int limit = u == 5 ? int(whole.size()) - 1 : int(whole.size()); // Without the last bracket, the request inside is complete
	std::string body = whole.substr(0, mc::choose(limit));
	if (mc::choose(2)) body += " \n";
	mc::describe(mc::quoted(body, 300));
	malformed(body);
});
// Single changes of bytes that make it invalid may be tolerated, but if not, it's an error; if it's still valid, it's a correct response
static mc::Register changed("requests with a changed byte", 6, [] (int u) {
	std::string body = wholeRequests()[u];
	size_t place = mc::choose(int(body.size()));
	static const std::string replacements = std::string("\"\\{}[]:,0a -+.e\n") + '\0' + '\x80' + '/' + 'u';
	int what = mc::choose(int(replacements.size()) * 2 + 1);
	if (what == int(replacements.size()) * 2) body.erase(place, 1);
	else if (what % 2) body[place] = replacements[what / 2];
	else body.insert(place, 1, replacements[what / 2]);
	mc::describe(mc::quoted(body, 300));
	std::string response;
	mc::step(body);
	if (!exchange(body, response)) return;
	MC_CHECK(calls.size() <= 1, "changed-calls", "several methods were run by " + mc::quoted(body, 300));
	if (response == "400") {
		MC_CHECK(calls.empty(), "changed-calls", "a refused request ran a method");
		mc::validated();
		return;
	}
	StrictJson request(body);
	Node document;
	bool valid = request.document(document);
	if (blank(response)) { // A notification
		MC_CHECK(!valid || document.kind == Node::Arr || !document.find("id"), "changed-silence", "no response to " + mc::quoted(body, 300));
		mc::validated();
		return;
	}
	StrictJson parser(response);
	Node got;
	bool validResponse = parser.document(got);
	bool unusualText = !validUtf8(body) || body.find('\0') != std::string::npos;
	MC_CHECK(validResponse || unusualText, "invalid-response", "the response is not valid JSON: " + mc::quoted(response, 300) + " to " + mc::quoted(body, 300));
	if (!validResponse) return;
	for (auto& it : got.kind == Node::Arr ? got.a : std::vector<Node>{got}) {
		MC_CHECK(it.kind == Node::Obj && it.find("jsonrpc") && it.find("id") && !it.find("result") != !it.find("error") && it.o.size() == 3, "changed-response", "the response is wrong: " + mc::quoted(response, 300));
		if (mc::failed()) return;
		if (it.find("result")) MC_CHECK(calls.size() == 1, "result-without-call", "there's a result but no method was run");
		if (valid && document.kind == Node::Obj && document.find("id") && it.find("result")) MC_CHECK(sameNode(*document.find("id"), *it.find("id")), "changed-id", "the identifier is different in the response " + mc::quoted(response, 300) + " to " + mc::quoted(body, 300));
	}
	mc::validated();
});
// Unreadable elements of batches
static mc::Register unreadable("batches that become unreadable", 19 * 2, [] (int u) {
	auto all = elements();
	auto& first = all[u % 19];
	static const char* const broken[] = {"{\"jsonrpc\":\"2.0\",\"id\":9,\"method\":\"calc.stop\"", "{\"jsonrpc\":\"2.0\",\"id\":9,\"method\":\"calc.stop", "{\"jsonrpc\":\"2.0\",\"method\":\"calc.stop\",\"id\"", "{method:\"calc.stop\"}]", "{", "\"", "nonsense]", "}]", "[", "[{\"method\":\"calc.stop\"}", "{\"id\":1,\"method\":\"calc.stop\",\"params\":{]"};
	std::string body = std::string("[") + first.text + (u / 19 ? " , " : ",") + mc::pick(broken);
	mc::describe(mc::quoted(body, 300));
	std::string response;
	mc::step(body);
	if (!exchange(body, response)) return;
	// The readable ones may have been run before noticing it
	MC_CHECK(calls.empty() || calls == first.e.log, "broken-batch-calls", mc::fmt("%zu calls by ", calls.size()) + mc::quoted(body, 300));
	StrictJson parser(response);
	Node got;
	bool valid = parser.document(got);
	MC_CHECK(valid, "invalid-response", "the response is not valid JSON: " + mc::quoted(response, 300) + " to " + mc::quoted(body, 300));
	if (!valid) return;
	if (got.kind != Node::Arr) { Node array = Node::array(); array.a.push_back(got); got = array; }
	bool error = false;
	for (auto& it : got.a) {
		Expected e;
		e.error = true;
		if (compareOne(it, e).empty()) error = true; // Without an identifier
	}
	MC_CHECK(error, "broken-batch", "there's no error for the unreadable part in " + mc::quoted(response, 300) + " to " + mc::quoted(body, 300));
	MC_CHECK(got.a.size() <= 3, "broken-batch-size", "there are too many responses in " + mc::quoted(response, 300));
	mc::validated();
});
