// Driver of C37: the C++ side of ASDL pickles, one case per line.
#include "asdl/asdl.hpp"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <unistd.h>

enum class col { a = 1, b, c };

struct pt {     // as generated for a product
    int x; unsigned y; std::string s;
    void write (asdl::outstream &os) { asdl::write_int (os, x); asdl::write_uint (os, y); asdl::write_string (os, s); }
    static pt *read (asdl::instream &is) { pt *p = new pt; p->x = asdl::read_int (is); p->y = asdl::read_uint (is); p->s = asdl::read_string (is); return p; }
};

static std::string hex (std::string const &s)
{
    static const char *d = "0123456789abcdef";
    std::string r = "x";
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
static std::string unhex (std::string const &s)
{
    std::string r;
    for (size_t i = 1;  i + 1 < s.size();  i += 2) r += static_cast<char>(std::stoi (s.substr (i, 2), nullptr, 16));
    return r;
}

static std::istringstream in;
static std::string tok () { std::string s; in >> s; return s; }
static long long num () { return std::stoll (tok ()); }
static asdl::integer mkint ()
{
    std::string k = tok (), v = tok ();
    if (k == "i32") return asdl::integer (static_cast<int32_t>(std::stol (v)));
    if (k == "u32") return asdl::integer (static_cast<uint32_t>(std::stoul (v)));
    if (k == "i64") return asdl::integer (static_cast<int64_t>(std::stoll (v)));
    if (k == "u64") return asdl::integer (static_cast<uint64_t>(std::stoull (v)));
    if (k == "zero") return asdl::integer ();
    asdl::memory_instream is (unhex (v));
    return asdl::read_integer (is);
}
static pt *mkpt () { pt *p = new pt; p->x = num (); p->y = num (); p->s = unhex (tok ()); return p; }

static void put (asdl::outstream &os, std::string const &t)
{
    if (t == "int") asdl::write_int (os, num ());
    else if (t == "uint") asdl::write_uint (os, num ());
    else if (t == "bool") asdl::write_bool (os, num () != 0);
    else if (t == "str") asdl::write_string (os, unhex (tok ()));
    else if (t == "tag8") asdl::write_tag8 (os, num ());
    else if (t == "integer") asdl::write_integer (os, mkint ());
    else if (t == "int?") { std::optional<int> o; if (num ()) o = num (); asdl::write_int_option (os, o); }
    else if (t == "uint?") { std::optional<unsigned> o; if (num ()) o = num (); asdl::write_uint_option (os, o); }
    else if (t == "bool?") { std::optional<bool> o; if (num ()) o = num () != 0; asdl::write_bool_option (os, o); }
    else if (t == "str?") { std::optional<std::string> o; if (num ()) o = unhex (tok ()); asdl::write_string_option (os, o); }
    else if (t == "integer?") { std::optional<asdl::integer> o; if (num ()) o = mkint (); asdl::write_integer_option (os, o); }
    else if (t == "col?") { std::optional<col> o; if (num ()) o = static_cast<col>(num ()); asdl::write_small_enum_option (os, o); }
    else if (t == "big?") { std::optional<col> o; if (num ()) o = static_cast<col>(num ()); asdl::write_big_enum_option (os, o); }
    else if (t == "col*") { std::vector<col> v; for (int n = num ();  n > 0;  n--) v.push_back (static_cast<col>(num ())); asdl::write_small_enum_seq (os, v); }
    else if (t == "big*") { std::vector<col> v; for (int n = num ();  n > 0;  n--) v.push_back (static_cast<col>(num ())); asdl::write_big_enum_seq (os, v); }
    else if (t == "pt?") { pt *p = nullptr; if (num ()) p = mkpt (); asdl::write_option (os, p); delete p; }
    else if (t == "pt*") { std::vector<pt *> v; for (int n = num ();  n > 0;  n--) v.push_back (mkpt ()); asdl::write_seq (os, v); for (pt *p : v) delete p; }
    else if (t == "int*") { int n = num (); asdl::write_uint (os, n); for (;  n > 0;  n--) asdl::write_int (os, num ()); }
    else if (t == "uint*") { int n = num (); asdl::write_uint (os, n); for (;  n > 0;  n--) asdl::write_uint (os, num ()); }
    else { std::cout << "?" << t << std::endl; exit (3); }
}

static void showint (std::ostream &o, asdl::integer const &i)
{
    int a; unsigned b; int32_t c; int64_t d; uint32_t e; uint64_t f;
    o << ' ' << i.getSign ();
    if (i.toInt (a)) o << " ov"; else o << ' ' << a << (i.toInt () == a ? "" : "!");
    if (i.toUInt (b)) o << " ov"; else o << ' ' << b << (i.toUInt () == b ? "" : "!");
    if (i.toInt32 (c)) o << " ov"; else o << ' ' << c << (i.toInt32 () == c ? "" : "!");
    if (i.toInt64 (d)) o << " ov"; else o << ' ' << d << (i.toInt64 () == d ? "" : "!") << ((i == asdl::integer (d)) && !(i != asdl::integer (d)) ? "" : "#");
    if (i.toUInt32 (e)) o << " ov"; else o << ' ' << e << (i.toUInt32 () == e ? "" : "!");
    if (i.toUInt64 (f)) o << " ov"; else o << ' ' << f << (i.toUInt64 () == f ? "" : "!");
    asdl::memory_outstream os;
    asdl::write_integer (os, i);
    o << ' ' << hex (os.get_pickle ());
    asdl::memory_instream is (os.get_pickle ());
    asdl::integer j = asdl::read_integer (is);
    o << ((i == j && !(i != j)) ? "" : "#");
}
static void showpt (std::ostream &o, pt *p) { o << ' ' << p->x << ' ' << p->y << ' ' << hex (p->s); delete p; }

static void get (std::ostream &o, asdl::instream &is, std::string const &t)
{
    if (t == "int") o << ' ' << asdl::read_int (is);
    else if (t == "uint") o << ' ' << asdl::read_uint (is);
    else if (t == "bool") o << ' ' << (asdl::read_bool (is) ? 1 : 0);
    else if (t == "str") o << ' ' << hex (asdl::read_string (is));
    else if (t == "tag8") o << ' ' << asdl::read_tag8 (is);
    else if (t == "integer") showint (o, asdl::read_integer (is));
    else if (t == "int?") { auto v = asdl::read_int_option (is); o << ' ' << v.has_value (); if (v) o << ' ' << *v; }
    else if (t == "uint?") { auto v = asdl::read_uint_option (is); o << ' ' << v.has_value (); if (v) o << ' ' << *v; }
    else if (t == "bool?") { auto v = asdl::read_bool_option (is); o << ' ' << v.has_value (); if (v) o << ' ' << *v; }
    else if (t == "str?") { auto v = asdl::read_string_option (is); o << ' ' << v.has_value (); if (v) o << ' ' << hex (*v); }
    else if (t == "integer?") { auto v = asdl::read_integer_option (is); o << ' ' << v.has_value (); if (v) showint (o, *v); }
    else if (t == "col?") { auto v = asdl::read_small_enum_option<col> (is); o << ' ' << v.has_value (); if (v) o << ' ' << static_cast<int>(*v); }
    else if (t == "big?") { auto v = asdl::read_big_enum_option<col> (is); o << ' ' << v.has_value (); if (v) o << ' ' << static_cast<int>(*v); }
    else if (t == "col*") { auto v = asdl::read_small_enum_seq<col> (is); o << ' ' << v.size (); for (col c : v) o << ' ' << static_cast<int>(c); }
    else if (t == "big*") { auto v = asdl::read_big_enum_seq<col> (is); o << ' ' << v.size (); for (col c : v) o << ' ' << static_cast<int>(c); }
    else if (t == "pt?") { pt *p = asdl::read_option<pt> (is); o << ' ' << (p != nullptr); if (p) showpt (o, p); }
    else if (t == "pt*") { auto v = asdl::read_seq<pt> (is); o << ' ' << v.size (); for (pt *p : v) showpt (o, p); }
    else if (t == "int*") { auto v = asdl::read_int_seq (is); o << ' ' << v.size (); for (int i : v) o << ' ' << i; }
    else if (t == "uint*") { auto v = asdl::read_uint_seq (is); o << ' ' << v.size (); for (unsigned i : v) o << ' ' << i; }
    else { std::cout << "?" << t << std::endl; exit (3); }
}

int main ()
{
    std::string ln, file = "asdl-" + std::to_string (getpid ()) + ".pkl";
    while (std::getline (std::cin, ln)) {
	in.clear (); in.str (ln);
	std::ostringstream o;
	std::string mode = tok (), kind = tok ();
	if (mode == "w") {
	    if (kind == "m") {
		asdl::memory_outstream os;
		std::string t;
		while (!(t = tok ()).empty ()) put (os, t);
		o << hex (os.get_pickle ());
	    } else {
		{
		    asdl::file_outstream os (file);
		    std::string t;
		    while (!(t = tok ()).empty ()) put (os, t);
		    os.close ();
		}
		std::string s; int c;
		FILE *f = fopen (file.c_str (), "rb");
		while (f != nullptr && (c = getc (f)) != EOF) s += static_cast<char>(c);
		if (f != nullptr) fclose (f);
		remove (file.c_str ());
		o << hex (s);
	    }
	} else {
	    std::string data = unhex (tok ()), t;
	    if (kind == "m") {
		asdl::memory_instream is (data);
		while (!(t = tok ()).empty ()) get (o, is, t);
	    } else {
		FILE *f = fopen (file.c_str (), "wb");
		fwrite (data.data (), 1, data.size (), f);
		fclose (f);
		asdl::file_instream is (file);
		while (!(t = tok ()).empty ()) get (o, is, t);
		remove (file.c_str ());
	    }
	}
	std::cout << o.str () << std::endl;
    }
    return 0;
}
