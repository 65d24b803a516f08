/* Instantiates the members of the header-only class templates that the library itself does not use,
   so that the analysis sees all of them.  Only parsed, never run. */
#include <pv/sharedVector.h>
#include <pv/pvData.h>
#include <pv/bitSet.h>
#include <pv/anyscalar.h>
#include <pv/debugPtr.h>
#include <pv/valueBuilder.h>

using namespace epics::pvData;

namespace epics { namespace pvData {
template class shared_vector<int32>;
template class shared_vector<std::string>;
template class shared_vector<PVStructurePtr>;

} }
template class epics::debug::shared_ptr<int>;

namespace pvinst {

template<typename E>
void mut(shared_vector<E>& a, E* raw, const std::shared_ptr<E>& sp)
{
    shared_vector<E> b(a), c(std::move(b)), d(size_t(3)), e(raw, 1, 2), f(sp, 1, 2);
    b = c;
    b = std::move(c);
    a.swap(b);
    a.slice(1, 2);
    a.clear();
    shared_vector<const E> k(freeze(a)), k2(k), k3(std::move(k2)), k4, k5(raw, 1, 2);
    k4 = k3;
    k4 = std::move(k3);
    k4.swap(k);
    k4.slice(1, 2);
    k4.make_unique();
    k4.reserve(3);
    k4.resize(3);
    (void)k4.at(1);
    (void)k4[1];
    (void)k4.front();
    (void)k4.back();
    (void)k4.data();
    (void)k4.begin();
    (void)k4.end();
    (void)k4.unique();
    k4.pop_back();
    k4.clear();
    shared_vector<E> t(thaw(k));
    shared_vector<void> v(static_shared_vector_cast<void>(t)), v2(v), v3(std::move(v2)), v4;
    v4 = v;
    v4 = std::move(v);
    v4.swap(v3);
    v4.slice(1, 2);
    shared_vector<E> w(static_shared_vector_cast<E>(v4));
    shared_vector<const void> cv(freeze(v4)), cv2(cv), cv3(std::move(cv2));
    cv = cv3;
    cv = std::move(cv3);
    cv.swap(cv3);
    cv.slice(1, 2);
    cv.clear();
    shared_vector<const E> cw(static_shared_vector_cast<const E>(cv));
    shared_vector<const void> cv5(static_shared_vector_cast<const void>(cw));
    shared_vector<E> cc(const_shared_vector_cast<E>(cw));
    shared_vector<const E> cd(const_shared_vector_cast<const E>(cc));
}

template<typename T>
void any(AnyScalar& a, const AnyScalar& k, T v)
{
    AnyScalar b(v);
    b = v;
    (void)a.ref<T>();
    (void)k.ref<T>();
    (void)k.as<T>();
}

void anys(AnyScalar& a, const AnyScalar& k)
{
    any<boolean>(a, k, 0);
    any<int8>(a, k, 0);
    any<int16>(a, k, 0);
    any<int32>(a, k, 0);
    any<int64>(a, k, 0);
    any<uint8>(a, k, 0);
    any<uint16>(a, k, 0);
    any<uint32>(a, k, 0);
    any<uint64>(a, k, 0);
    any<float>(a, k, 0);
    any<double>(a, k, 0);
    any<std::string>(a, k, "");
    AnyScalar c("x");
    c = "y";
    a.swap(c);
    a = k;
    a = std::move(c);
}

void all()
{
    shared_vector<int32> a;
    int32 *r = 0;
    std::shared_ptr<int32> s;
    mut(a, r, s);
    shared_vector<std::string> b;
    std::string *rs = 0;
    std::shared_ptr<std::string> ss;
    mut(b, rs, ss);
    shared_vector<int32> il({1, 2, 3});
    shared_vector<const int32> ci;
    shared_vector<double> md(shared_vector_convert<double>(ci));
    shared_vector<const void> cv(shared_vector_convert<const void>(ci));
    shared_vector<const std::string> cs(shared_vector_convert<const std::string>(cv));
    shared_vector<const int32> ci2(shared_vector_convert<const int32>(cv));
}

/* conversions between all pairs of numbers, the library copies those of one width as bytes */
template<typename TO>
double casts()
{
    double r = 0;
    r += (double)castUnsafe<TO>(int8(1)) + (double)castUnsafe<TO>(uint8(1));
    r += (double)castUnsafe<TO>(int16(1)) + (double)castUnsafe<TO>(uint16(1));
    r += (double)castUnsafe<TO>(int32(1)) + (double)castUnsafe<TO>(uint32(1));
    r += (double)castUnsafe<TO>(int64(1)) + (double)castUnsafe<TO>(uint64(1));
    r += (double)castUnsafe<TO>(1.0f) + (double)castUnsafe<TO>(1.0);
    return r;
}
double allcasts()
{
    return casts<int8>() + casts<uint8>() + casts<int16>() + casts<uint16>() + casts<int32>() + casts<uint32>() + casts<int64>() + casts<uint64>()
         + casts<float>() + casts<double>();
}

}
