// Force-included (-include) before every translation unit of a world.
//
// This is the seam between the library and its environment.  Nothing in /repo is changed: the
// library asks the standard library for entropy (std::random_device, std::mt19937...), time
// (std::chrono clocks), memory (operator new) and bytes (std::streambuf); here those requests are
// answered by the simulator.
//   entropy : std::mt19937 & friends are renamed to simulator engines (below)
//   time    : std::chrono::{system,steady}_clock::now, clock_gettime, ... are defined in sim.cpp
//   memory  : operator new/delete are replaced in sim.cpp
//   bytes   : sim::InBuf / sim::OutBuf in sim.hpp
#pragma once
#include <bits/stdc++.h>
#include "sim.hpp"
namespace std {
    using sim_mt19937_t       = ::sim::Engine<uint_fast32_t, 32>;
    using sim_mt19937_64_t    = ::sim::Engine<uint_fast64_t, 64>;
    using sim_minstd_t        = ::sim::Engine<uint_fast32_t, 31>;
    using sim_random_device_t = ::sim::RandomDevice;
}
#define mt19937 sim_mt19937_t
#define mt19937_64 sim_mt19937_64_t
#define default_random_engine sim_minstd_t
#define minstd_rand sim_minstd_t
#define minstd_rand0 sim_minstd_t
#define ranlux24 sim_mt19937_t
#define ranlux48 sim_mt19937_64_t
#define knuth_b sim_mt19937_t
#define random_device sim_random_device_t
