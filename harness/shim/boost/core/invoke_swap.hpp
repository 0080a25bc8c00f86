#pragma once
#include <utility>
#include <boost/config.hpp>
namespace boost_verif_swap_impl { template<class T> void f(T&l,T&r){ using std::swap; swap(l,r);} }
namespace boost { namespace core { template<class T> inline void invoke_swap(T& l,T& r){ ::boost_verif_swap_impl::f(l,r);} } }
