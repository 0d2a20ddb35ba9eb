#pragma once
// parse-only stand-in for the OpenMP runtime header (used by the AST extractor, never compiled to code)
extern "C" { int omp_get_thread_num(); int omp_get_num_threads(); int omp_get_max_threads(); void omp_set_num_threads(int); double omp_get_wtime(); int omp_get_num_procs(); void omp_set_dynamic(int); }
