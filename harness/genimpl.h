#pragma once
// Access to a generated store of any definition, by public interfaces only.
#include "common.h"
#include <stored>
#include <memory>

struct AnyStore {
	virtual ~AnyStore() {}
	virtual void op(h::Args const& a) = 0;
};
typedef AnyStore* (*Factory)();
std::map<std::string, Factory>& factories();

typedef std::map<std::string, std::string> Regs;
extern std::vector<std::string> calls; // names of the functions that were called

template <typename T>
void fixedFunction(Regs& regs, char const* name, bool set, T& v)
{
	calls.push_back(name);
	std::string& r = regs[name];
	r.resize(sizeof(T), 0);
	if(set)
		memcpy(&r[0], &v, sizeof(T));
	else
		memcpy((void*)&v, r.data(), sizeof(T));
}
inline size_t blobFunction(Regs& regs, char const* name, size_t size, bool str, bool set, void* v, size_t len)
{
	calls.push_back(name);
	std::string& r = regs[name];
	if(!str)
		r.resize(size, 0);
	len = std::min(len, size);
	if(set) {
		if(str)
			r.assign((char const*)v, strnlen((char const*)v, len));
		else
			memcpy(&r[0], v, len);
	} else {
		len = std::min(len, r.size());
		memcpy(v, r.data(), len);
	}
	return len;
}

template <typename S>
struct GenStore : public AnyStore {
	S s;
	struct Obj {
		std::string name;
		stored::Type::type t;
		void* p;
		size_t n;
	};
	std::vector<Obj> objs;

	static void cb(void*, char const* name, stored::Type::type t, void* p, size_t n, void* arg)
	{
		static_cast<std::vector<Obj>*>(arg)->push_back(Obj{name, t, p, n});
	}
	GenStore()
	{
		s.list(&cb, &objs);
	}
	stored::Variant<S> var(Obj const& o)
	{
		if(stored::Type::isFunction(o.t))
			return stored::Variant<S>(s, o.t, (unsigned int)(uintptr_t)o.p, o.n);
		return stored::Variant<S>(s, o.t, o.p, o.n);
	}
	// index (from 1) in the list of this object, 0: not valid, -1: something else
	template <typename V>
	int index(V const& v)
	{
		if(!v.valid())
			return 0;
		for(size_t i = 0; i < objs.size(); i++)
			if(v.type() == objs[i].t && v.size() == objs[i].n && v == var(objs[i]))
				return (int)i + 1;
		return -1;
	}
	std::string value(Obj const& o)
	{
		std::vector<uint64_t> w(o.n / 8 + 2, 0x5a5a5a5a5a5a5a5aU); // aligned
		stored::Variant<S> v = var(o);
		size_t r = v.get(w.data(), o.n);
		std::string x((char const*)w.data(), stored::Type::isFixed(o.t) ? o.n : r);
		if(stored::Type::type(o.t & ~stored::Type::FlagFunction) == stored::Type::String)
			x.resize(strnlen(x.data(), x.size()));
		return x;
	}
	virtual void members(std::function<void(char const*, int)>) {}
	virtual void frees(std::function<void(char const*, int)>) {}
	virtual void arrays(std::function<void(char const*, int)>) {}
	virtual bool typed(h::Args const&) { return false; }

	static std::string callList()
	{
		std::string c = "[";
		for(auto const& x : calls)
			c += (c.size() > 1 ? "," : "") + h::bytes(x);
		calls.clear();
		return c + "]";
	}
	void op(h::Args const& a) override
	{
		std::string const& c = a[0];
		calls.clear();
		if(c == "list") {
			std::string r;
			for(auto const& o : objs)
				r += (r.empty() ? "" : ",") + ("{\"nm\":" + h::bytes(o.name) + ",\"t\":" + std::to_string((int)o.t) + ",\"n\":" + std::to_string(o.n) + "}");
			h::ev("{\"e\":\"list\",\"l\":[%s],\"oc\":%d,\"vc\":%d,\"fc\":%d}", r.c_str(), (int)S::ObjectCount, (int)S::VariableCount, (int)S::FunctionCount);
		} else if(c == "find") {
			std::string n = a.size() > 1 && a[1] != "-" ? h::unhex(a[1]) : "";
			stored::Variant<S> v;
			if(a.size() > 2) {
				std::vector<char> b(n.begin(), n.end()); // not terminated
				size_t len = (size_t)h::num(a, 2);
				b.shrink_to_fit();
				static char none = 'x';
				v = s.find(b.empty() ? &none : b.data(), len);
				n = n.substr(0, len);
			} else {
				std::vector<char> b(n.begin(), n.end());
				b.push_back(0);
				v = s.find(b.data());
			}
			h::ev("{\"e\":\"find\",\"s\":%s,\"r\":%d}", h::bytes(n).c_str(), index(v));
		} else if(c == "vals") {
			std::string r;
			std::string cl;
			for(auto const& o : objs) {
				r += (r.empty() ? "" : ",") + h::bytes(value(o));
				cl += (cl.empty() ? "" : ",") + callList();
			}
			h::ev("{\"e\":\"vals\",\"v\":[%s],\"c\":[%s]}", r.c_str(), cl.c_str());
		} else if(c == "set") {
			Obj& o = objs[(size_t)h::num(a, 1) % objs.size()];
			std::string b = a.size() > 2 ? h::unhex(a[2]) : "";
			if(stored::Type::isFixed(o.t))
				b.resize(o.n, '\x11');
			else
				b.resize(std::min(b.size(), o.n));
			if((o.t & ~stored::Type::FlagFunction) == stored::Type::Bool)
				b[0] &= 1;
			bool str = stored::Type::type(o.t & ~stored::Type::FlagFunction) == stored::Type::String;
			if(str)
				b.resize(strnlen(b.data(), b.size()));
			std::vector<uint64_t> w(b.size() / 8 + 2);
			memcpy(w.data(), b.data(), b.size());
			var(o).set(w.data(), b.size());
			h::ev("{\"e\":\"set\",\"i\":%d,\"b\":%s,\"c\":%s}", (int)(&o - &objs[0]) + 1, h::bytes(b).c_str(), callList().c_str());
		} else if(c == "lay") {
			std::string r;
			char* base = nullptr;
			for(auto const& o : objs)
				if(!stored::Type::isFunction(o.t) && (!base || (char*)o.p < base))
					base = (char*)o.p;
			for(auto const& o : objs) {
				bool f = stored::Type::isFunction(o.t);
				r += (r.empty() ? "" : ",") + ("{\"o\":" + std::to_string(f ? -1 : (long)((char*)o.p - base)) + ",\"m\":" + std::to_string(f ? 0 : (int)((uintptr_t)o.p % 8)) + ",\"k\":" + std::to_string(f ? -1 : (long)s.bufferToKey(o.p)) + "}");
			}
			h::ev("{\"e\":\"lay\",\"a\":[%s]}", r.c_str());
		} else if(c == "mem" || c == "arr" || c == "free") {
			std::string r;
			auto f = [&](char const* n, int i) {
				r += (r.empty() ? "" : ",") + ("{\"nm\":" + h::bytes(n) + ",\"i\":" + std::to_string(i) + "}");
			};
			if(c == "mem")
				members(f);
			else if(c == "free")
				frees(f);
			else
				arrays(f);
			h::ev("{\"e\":\"%s\",\"m\":[%s]}", c == "free" ? "arr" : c.c_str(), r.c_str());
		} else if(c == "hash") {
			h::ev("{\"e\":\"hash\",\"h\":%s}", h::quote(s.hash()).c_str());
		} else
			typed(a);
	}
	// typed accessors, by member
	template <typename M>
	void typedOp(h::Args const& a, char const* name, M& m)
	{
		// tset <k> <hex>: write by the typed interface; tget <k>
		typedef decltype(m.get()) T;
		T v = T();
		calls.clear();
		if(a[0] == "tset") {
			std::string b = h::unhex(a[2]);
			b.resize(sizeof(T), '\x22');
			if(std::is_same<T, bool>::value)
				b[0] &= 1;
			memcpy((void*)&v, b.data(), sizeof(T));
			m.set(v);
			h::ev("{\"e\":\"tset\",\"nm\":%s,\"b\":%s,\"c\":%s}", h::bytes(name).c_str(), h::bytes(b).c_str(), callList().c_str());
		} else {
			v = m.get();
			h::ev("{\"e\":\"tget\",\"nm\":%s,\"b\":%s,\"c\":%s}", h::bytes(name).c_str(), h::bytes(std::string((char*)&v, sizeof(T))).c_str(), callList().c_str());
		}
	}
};
