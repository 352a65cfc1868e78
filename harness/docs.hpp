// Documents that between them reach every kind of token, of escape, of number, of character and of error the
// dialect has: for checks whose space is not the documents but what is done with them.
#pragma once
#include <string>
#include <vector>
#include "ref.hpp"

inline const std::vector<std::string>& all_documents()
{
    static const std::vector<std::string> list = [] {
        std::vector<std::string> d = {
            // values
            "null", "true", "false", "0", "-0", "+1", "9223372036854775807", "-9223372036854775808", "0.5", "-0.0", "+2.25", "123.456", "1e5", "1E+5", "25e-1", "1.5E2", "100000000000000000000.5", "1e300", "1e-300", "0.000001", "\"\"", "\"a\"", "[]", "{}", "[[]]", "[{}]", "{\"\":{}}",
            "[1,2.5,\"x\",true,false,null,[],{}]", "{\"a\":1,\"b\":[true,{\"c\":null}],\"d\":\"e\"}", "{\"k\":1,\"k\":2}", "[1,]", "{\"a\":1,}",
            // strings
            "\"\\\"\\\\\\/\\b\\f\\n\\r\\t\"", "\"\\u0041\\u00e9\\u4e2D\\uFFFD\"", "\"\\ud834\\udd1e\\uDBFF\\uDFFF\"", "\"\\u0000\\u001f\\u007f\\u0080\"", "\"\x7f\xc2\x80\xdf\xbf\xe0\xa0\x80\xef\xbf\xbd\xf0\x90\x80\x80\xf4\x8f\xbf\xbf\"", "{\"\\n\\u00e9\xf0\x9d\x84\x9e\":\"\\u4e2d\"}", "\"a string that is too long to live in place, with /* no comment */ and // none either\"",
            // space and comments
            " \t\r\n1\n\r\t ", "/**/1", "/***/1/****/", "/*/ 1 */2", "//\n1", "//c\r1//d", "/*a*//*b*/ [ /*c*/ 1 /*d*/ , //e\n2 ] //f\n", "{ \"a\" /**/ : /**/ 1 /**/ }", "1/", "1//", "1/*", "1/* *",
            // what ends a document
            "", " ", "//", "/**/", "1 2", "1,", "[]]", "{}{", "\"a\"\"b\"", "truefalse", "true1", "1true",
            // structure
            "[", "{", "]", "}", ",", ":", "[1", "[1,", "[,1]", "[1,,2]", "[1 2]", "[1:2]", "[1}", "[}", "[1[", "[1{", "[1 true", "[1 false", "[1 null", "[1 \"x\"", "[1 2.5", "{\"a\"", "{\"a\":", "{\"a\":}", "{\"a\":1", "{\"a\":1]", "{\"a\" 1}", "{\"a\",1}", "{\"a\":1 \"b\":2}", "{\"a\":1:2}", "{,}", "{1:2}", "{2.5:1}", "{null:1}", "{true:1}", "{false:1}", "{[]:1}", "{{}:1}", "{:1}",
            // literals
            "t", "tru", "trub", "nul", "nulL", "falsy", "n\xc3\xa9", "x", "\xc3\xa9", "'a'", "\x01", "\x7f",
            // numbers
            "-", "+", "--1", "+-1", "01", "00", "-01", "1.", "1.x", ".5", "-.5", "1..2", "1.5.5", "1e", "1e+", "1e-", "1ex", "1e1.5", "1e01", "1e0", "0e1", "0x1", "9223372036854775808", "-9223372036854775809", "99999999999999999999", "1e309", "1e999", "1e99999999999", "1.5e-99999999999", "1a", "1\xc3\xa9",
            // bad strings
            "\"", "\"a", "\"\\", "\"\\\"", "\"\\x\"", "\"\\u\"", "\"\\u12\"", "\"\\u12g4\"", "\"\\uD834\"", "\"\\uD834x\"", "\"\\uD834\\n\"", "\"\\uD834\\u0041\"", "\"\\uD834\\uD834\"", "\"\\uDD1E\"", "\"\n\"", "\"\x1f\"", "\"\t\"", "\"\x80\"", "\"\xc3\"", "\"\xc3x\"", "\"\xe4\xb8\"", "\"\xf0\x9d\x84\"", "\"\xc0\x80\"", "\"\xed\xa0\x80\"", "\"\xf4\x90\x80\x80\"", "\"\xff\"", "{\"a\\x\":1}", "[\"a\",\"\\q\"]",
            // bad characters elsewhere
            "\x80", "[\xff]", "//\xc3\n1", "/*\xe4\xb8*/1", "tr\xc3", "1\xff", "[1\x80" };
        d.push_back(std::string("1\0", 2));
        d.push_back(std::string("[1\0]", 4));
        d.push_back(std::string("\0", 1));
        d.push_back(std::string("\"a\0b\"", 5));
        d.push_back(std::string("//a\0b\n1", 7));
        return d;
    }();
    return list;
}

// the same in wider units; an ill-formed character becomes a lone surrogate at the end
template <class Ch>
std::basic_string<Ch> wide_document(const std::string& d)
{
    ref::U p   = ref::dec(d);
    bool   bad = !p.empty() && p.back() == ref::bad;
    if (bad)
        p.pop_back();
    auto w = ref::enc<Ch>(p);
    if (bad)
        w.push_back(static_cast<Ch>(0xD800));
    return w;
}
// the values of the well-formed ones
inline const std::vector<ref::V>& all_values()
{
    static const std::vector<ref::V> list = [] {
        std::vector<ref::V> r;
        for (auto& d : all_documents())
        {
            ref::V v;
            if (ref::parse(ref::dec(d), v) == ref::Ok)
                r.push_back(v);
        }
        return r;
    }();
    return list;
}
