// Glue between configor values and reference values, through the public interface only.
#pragma once
#include "../engine/mc.hpp"
#include "ref.hpp"
#include <configor/json.hpp>

namespace cf
{
using configor::json;
using configor::wjson;
using configor::value_constant;

template <class Val>
ref::V from(const Val& v)
{
    switch (v.type())
    {
    case value_constant::null:
        return ref::V::null();
    case value_constant::boolean:
        return ref::V::boolean(v.data().boolean);
    case value_constant::integer:
        return ref::V::integer(static_cast<int64_t>(v.data().integer));
    case value_constant::floating:
        return ref::V::floating(static_cast<long double>(v.data().floating));
    case value_constant::string:
        return ref::V::string(ref::dec(std::basic_string<typename Val::char_type>(v.data().string->begin(), v.data().string->end())));
    case value_constant::array:
    {
        ref::V r = ref::V::array();
        for (auto& x : *v.data().vector)
            r.a.push_back(from(x));
        return r;
    }
    case value_constant::object:
    {
        ref::V r = ref::V::object();
        for (auto& m : *v.data().object)
            r.o.emplace_back(ref::dec(std::basic_string<typename Val::char_type>(m.first.begin(), m.first.end())), from(m.second));
        return r;
    }
    }
    throw mc::Fail{ "the value has an impossible kind " + std::to_string(static_cast<int>(v.type())) };
}

template <class Val>
Val to(const ref::V& r)
{
    using S = typename Val::string_type;
    auto str = [](const ref::U& u)
    {
        auto t = ref::enc<typename Val::char_type>(u);
        return S(t.begin(), t.end());
    };
    switch (r.k)
    {
    case ref::Null:
        return Val(nullptr);
    case ref::Bool:
        return Val(static_cast<typename Val::boolean_type>(r.b));
    case ref::Int:
    {
        Val v(value_constant::integer);
        v.data().integer = static_cast<typename Val::integer_type>(r.i);
        return v;
    }
    case ref::Float:
    {
        Val v(value_constant::floating);
        v.data().floating = static_cast<typename Val::float_type>(r.f);
        return v;
    }
    case ref::Str:
        return Val(str(r.s));
    case ref::Arr:
    {
        Val v(value_constant::array);
        for (auto& x : r.a)
            v.data().vector->push_back(to<Val>(x));
        return v;
    }
    case ref::Obj:
    {
        Val v(value_constant::object);
        for (auto& m : r.o)
            v.data().object->emplace(str(m.first), to<Val>(m.second));
        return v;
    }
    }
    return Val();
}

// outcome of an operation that may throw
enum Err
{
    none,
    deserialization,
    serialization,
    type_error,
    invalid_key,
    invalid_iterator,
    out_of_range,
    alloc,
    other
};
inline const char* name(Err e)
{
    static const char* n[] = { "no error",         "deserialization error", "serialization error", "type error", "invalid key error",
                               "invalid iterator", "out of range",          "bad alloc",           "other exception" };
    return n[e];
}
template <class F>
Err attempt(F&& f)
{
    try
    {
        f();
        return none;
    }
    catch (const configor::configor_deserialization_error&)
    {
        return deserialization;
    }
    catch (const configor::configor_serialization_error&)
    {
        return serialization;
    }
    catch (const configor::configor_type_error&)
    {
        return type_error;
    }
    catch (const configor::configor_invalid_key&)
    {
        return invalid_key;
    }
    catch (const configor::configor_invalid_iterator&)
    {
        return invalid_iterator;
    }
    catch (const std::out_of_range&)
    {
        return out_of_range;
    }
    catch (const std::bad_alloc&)
    {
        return alloc;
    }
    catch (const mc::Fail&)
    {
        throw;
    }
    catch (...)
    {
        return other;
    }
}

inline uint64_t shape_hash(const ref::V& v)
{
    uint64_t h = mc::mix(static_cast<uint64_t>(v.k) + 77);
    switch (v.k)
    {
    case ref::Bool:
        return mc::mix(h ^ v.b);
    case ref::Int:
        return mc::mix(h ^ static_cast<uint64_t>(v.i));
    case ref::Float:
    {
        double d = static_cast<double>(v.f);
        uint64_t b;
        std::memcpy(&b, &d, 8);
        return mc::mix(h ^ b);
    }
    case ref::Str:
        return mc::hash(v.s.data(), v.s.size() * 4, h);
    case ref::Arr:
        for (auto& x : v.a)
            h = mc::mix(h * 31 + shape_hash(x));
        return h;
    case ref::Obj:
        for (auto& m : v.o)
            h = mc::mix(h * 37 + mc::hash(m.first.data(), m.first.size() * 4) * 3 + shape_hash(m.second));
        return h;
    default:
        return h;
    }
}

// The central comparison: parse `text` (source encoding by character width), compare with the
// reference reading.  Ch is the source character type.
template <class Json, class Ch>
void check_parse(mc::Ctx& cx, const std::basic_string<Ch>& text, const ref::Limits& lim = ref::Limits(), const ref::Cmp& cmp = ref::literal_cmp())
{
    ref::V      want;
    ref::Status st = ref::parse(ref::dec(text), want, lim);
    cx.eval();
    typename Json::value got;
    auto                 e = attempt([&] { got = Json::parse(text); });
    if (cx.verbose)
        cx.note("parse " + mc::shows(text) + " -> " + (e == none ? ref::show(from(got)) : name(e)) + "; reference: "
                + (st == ref::Bad ? std::string("error") : ref::show(want)));
    if (e != none && e != deserialization)
        cx.fail("parsing " + mc::shows(text) + " ended with " + name(e));
    if (st == ref::Bad)
    {
        if (e == none)
            cx.fail("parsing " + mc::shows(text) + " was accepted as " + ref::show(from(got)) + ", it must be refused");
        cx.outcome(1);
        return;
    }
    if (e != none)
    {
        if (st == ref::Either)
            return;
        cx.fail("parsing " + mc::shows(text) + " was refused, it denotes " + ref::show(want));
    }
    auto g = from(got);
    if (!ref::eq(g, want, cmp))
        cx.fail("parsing " + mc::shows(text) + " gave " + ref::show(g) + ", it denotes " + ref::show(want));
    cx.outcome(shape_hash(g));
}
}  // namespace cf
