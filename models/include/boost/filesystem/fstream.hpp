#pragma once
#include <boost/filesystem.hpp>
#include <fstream>
namespace boost { namespace filesystem {
#define HSE_BFS(N,D) struct N : std::N { N() {} explicit N(const path &p, std::ios_base::openmode m=D) : std::N(p.native(),m) {} void open(const path &p, std::ios_base::openmode m=D) { std::N::open(p.native(),m); } };
HSE_BFS(ifstream,std::ios_base::in) HSE_BFS(ofstream,std::ios_base::out) HSE_BFS(fstream,std::ios_base::in|std::ios_base::out)
}}
