// Stand-in for std::istream >> double (symbolic build only): the same extraction as libstdc++ (sentry, num_get, setstate), except that
// the numbers 7000000, 7000001, ... stand for registered symbolic inputs.  Linked in place of the library's out-of-line instantiations.
#include <istream>
#include <locale>
#include <iterator>
#include <vector>
static std::vector<double>& table() { static std::vector<double> t; return t; }
extern "C" int hook_register(double v) { table().push_back(v); return 7000000 + int(table().size()) - 1; }
#ifdef SYM_SYMBOLIC
extern "C" std::istream* hook_extract(std::istream* is, double* v) __asm__("_ZNSirsERd");
extern "C" std::istream* hook_extract2(std::istream* is, double* v) __asm__("_ZNSi10_M_extractIdEERSiRT_");
static std::istream* extract(std::istream* is, double* v)
{
    std::istream::sentry ok(*is, false);
    if (ok) {
        std::ios_base::iostate err = std::ios_base::goodbit; double x = 0;
        std::use_facet<std::num_get<char> >(is->getloc()).get(std::istreambuf_iterator<char>(*is), std::istreambuf_iterator<char>(), *is, err, x);
        const double k = x - 7000000.0; const int i = (k >= 0 && k < 1e5) ? int(k) : -1;
        *v = (i >= 0 && i < int(table().size()) && double(i) == k) ? table()[i] : x;
        if (err) is->setstate(err);
    }
    return is;
}
extern "C" std::istream* hook_extract(std::istream* is, double* v) { return extract(is, v); }
extern "C" std::istream* hook_extract2(std::istream* is, double* v) { return extract(is, v); }
#endif
