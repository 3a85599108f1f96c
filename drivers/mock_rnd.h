// Contract stand-in for the random number library: uniform draws are min + (max-min) u, normal draws mu + sigma g and integer draws
// min + k, for draws u, g, k chosen by the analysis (rnd_in, rnd_int)
#pragma once
#define BOOST_RANDOM_UNIFORM_01_HPP
#define BOOST_RANDOM_UNIFORM_INT_HPP
#define BOOST_RANDOM_UNIFORM_REAL_HPP
#define BOOST_RANDOM_MERSENNE_TWISTER_HPP
#define BOOST_RANDOM_VARIATE_GENERATOR_HPP
#define BOOST_RANDOM_RANDOM_GENERATOR_HPP
#define BOOST_RANDOM_NORMAL_DISTRIBUTION_HPP
#include <cstddef>
static const double* rnd_in; static const std::size_t* rnd_int;
namespace boost {
struct mt19937 {};
template<class T> struct uniform_real { typedef T result_type; T a,b; uniform_real(T x,T y):a(x),b(y){} T draw() const { return a+(b-a)*T(*rnd_in++); } };
template<class T> struct normal_distribution { typedef T result_type; T a,b; normal_distribution(T x,T y):a(x),b(y){} T draw() const { return a+b*T(*rnd_in++); } };
template<class T> struct uniform_int { typedef T result_type; T a,b; uniform_int(T x,T y):a(x),b(y){} T draw() const { T k=T(*rnd_int++); return a+k; } };
template<class E,class D> struct variate_generator { D d; variate_generator(E,D x):d(x){} typename D::result_type operator()(){ return d.draw(); } };
}
