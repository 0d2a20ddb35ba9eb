#include "AmpGen/ThreadPool.h"
#include <stdexcept>
using Job = int (*)();
template std::future<int> AmpGen::ThreadPool::enqueue<Job>( Job&& );
