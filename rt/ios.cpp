// The compiled part of <ios> and <locale>, for the builds whose stream templates are part of the encoding.
// The locale has the facets of the "C" locale that classify characters and read and print integers.
#include <istream>
#include <locale>
#include <sstream>
extern "C" void symx_fail(const char*);
namespace std
{
alignas(16) static char theLocale[256];
alignas(16) static char ctypeAt[sizeof(ctype<char>)], numPutAt[sizeof(num_put<char>)], numGetAt[sizeof(num_get<char>)], punctAt[sizeof(numpunct<char>)];
static const locale::facet* facets[8];
static const locale::facet* caches[8];
locale::id ctype<char>::id;
const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
locale::facet::~facet() {}
static const ctype_base::mask* classTable()
{
    static ctype_base::mask t[256];
    if (t[' ']) return t;
    for (int c = 0; c < 128; c++) {
        ctype_base::mask m = 0;
        bool up = c >= 'A' && c <= 'Z', low = c >= 'a' && c <= 'z', dig = c >= '0' && c <= '9', hexd = dig || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F');
        if (up) m |= ctype_base::upper;
        if (low) m |= ctype_base::lower;
        if (up || low) m |= ctype_base::alpha;
        if (dig) m |= ctype_base::digit;
        if (hexd) m |= ctype_base::xdigit;
        if (c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space;
        if (c == ' ' || c == 9) m |= ctype_base::blank;
        if (c >= 32 && c < 127) m |= ctype_base::print;
        if (c < 32 || c == 127) m |= ctype_base::cntrl;
        if (c > 32 && c < 127 && !up && !low && !dig) m |= ctype_base::punct;
        t[c] = m;
    }
    return t;
}
ctype<char>::ctype(const mask* table, bool, size_t refs)
    : facet(refs), _M_c_locale_ctype(nullptr), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(table), _M_widen_ok(0), _M_narrow_ok(0)
{
    _M_widen_init();
    _M_narrow_init();
}
void ctype<char>::_M_widen_init() const
{
    for (int i = 0; i < 256; i++) _M_widen[i] = (char)i;
    _M_widen_ok = 1;
}
void ctype<char>::_M_narrow_init() const
{
    for (int i = 0; i < 256; i++) _M_narrow[i] = (char)i;
    _M_narrow_ok = 1;
}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
const char* ctype<char>::do_toupper(char* a, const char* b) const
{
    for (; a < b; a++) *a = do_toupper(*a);
    return b;
}
const char* ctype<char>::do_tolower(char* a, const char* b) const
{
    for (; a < b; a++) *a = do_tolower(*a);
    return b;
}
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale)
{
    auto* d = new (malloc(sizeof(__cache_type))) __cache_type;
    d->_M_grouping = "";
    d->_M_grouping_size = 0;
    d->_M_use_grouping = false;
    d->_M_decimal_point = '.';
    d->_M_thousands_sep = ',';
    for (int i = 0; i < __num_base::_S_oend; i++) d->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
    for (int i = 0; i < __num_base::_S_iend; i++) d->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
    d->_M_truename = "true";
    d->_M_truename_size = 4;
    d->_M_falsename = "false";
    d->_M_falsename_size = 5;
    _M_data = d;
}
template <> numpunct<char>::~numpunct() {}
locale::locale() noexcept : _M_impl((_Impl*)theLocale)
{
    if (_M_impl->_M_facets) return;
    _M_impl->_M_facets = facets;
    _M_impl->_M_facets_size = 8;
    _M_impl->_M_caches = caches;
    facets[1] = new (ctypeAt) std::ctype<char>(classTable(), false, 1);
    facets[2] = new (numPutAt) num_put<char>(1);
    facets[3] = new (numGetAt) num_get<char>(1);
    facets[4] = new (punctAt) numpunct<char>(1);
}
static locale init; // before main, as the library does: not a write of the code that first uses a stream
static const auto* numpunctCache = __use_cache<__numpunct_cache<char>>()(init);
locale::locale(const locale& o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale& locale::operator=(const locale&) noexcept { return *this; }
const locale& locale::classic() { return init; }
size_t locale::id::_M_id() const noexcept
{
    return this == &std::ctype<char>::id ? 1 : this == &num_put<char>::id ? 2 : this == &num_get<char>::id ? 3 : this == &numpunct<char>::id ? 4 : 0;
}
void locale::_Impl::_M_install_cache(const facet* c, size_t i) { _M_caches[i] = c; }
template <> streamsize __copy_streambufs_eof(streambuf* in, streambuf* out, bool& eof)
{
    streamsize n = 0;
    eof = true;
    for (int c = in->sgetc(); c != char_traits<char>::eof(); c = in->snextc()) {
        if (out->sputc((char)c) == char_traits<char>::eof()) { eof = false; break; }
        n++;
    }
    return n;
}
template <> streamsize __copy_streambufs(streambuf* in, streambuf* out)
{
    bool eof;
    return __copy_streambufs_eof(in, out, eof);
}
template <> istream& getline(istream& in, string& s, char delim)
{
    ios_base::iostate err = ios_base::goodbit;
    istream::sentry ok(in, true);
    size_t n = 0;
    if (ok) {
        s.erase();
        int c = in.rdbuf()->sgetc();
        while (c != char_traits<char>::eof() && (char)c != delim) { s += (char)c; n++; c = in.rdbuf()->snextc(); }
        if (c == char_traits<char>::eof()) err |= ios_base::eofbit;
        else { n++; in.rdbuf()->sbumpc(); }
    }
    if (!n) err |= ios_base::failbit;
    if (err) in.setstate(err);
    return in;
}
template <> istream& operator>>(istream& in, string& s)
{
    ios_base::iostate err = ios_base::goodbit;
    istream::sentry ok(in, false);
    streamsize n = 0, most = in.width() > 0 ? in.width() : (streamsize)s.max_size();
    if (ok) {
        s.erase();
        int c = in.rdbuf()->sgetc();
        while (n < most && c != char_traits<char>::eof() && !use_facet<ctype<char>>(in.getloc()).is(ctype_base::space, (char)c)) { s += (char)c; n++; c = in.rdbuf()->snextc(); }
        if (c == char_traits<char>::eof()) err |= ios_base::eofbit;
        in.width(0);
    }
    if (!n) err |= ios_base::failbit;
    if (err) in.setstate(err);
    return in;
}
template <> istream& istream::ignore(streamsize most, int_type delim)
{
    _M_gcount = 0;
    sentry ok(*this, true);
    if (!ok || most <= 0) return *this;
    int c = rdbuf()->sgetc();
    while (_M_gcount < most && c != char_traits<char>::eof() && c != delim) { _M_gcount++; c = rdbuf()->snextc(); }
    if (_M_gcount < most) {
        if (c == char_traits<char>::eof()) setstate(eofbit);
        else { _M_gcount++; rdbuf()->sbumpc(); }
    }
    return *this;
}
template <> istream& istream::ignore(streamsize most) { return ignore(most, -2); }
template <> istream& istream::ignore() { return ignore(1, -2); }
ios_base::ios_base() noexcept
    : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale()
{
}
ios_base::~ios_base() {}
void ios_base::_M_init() noexcept
{
    _M_precision = 6;
    _M_width = 0;
    _M_flags = skipws | dec;
}
}
void std::__throw_ios_failure(const char*) { symx_fail("a stream operation failed"); __builtin_unreachable(); }
