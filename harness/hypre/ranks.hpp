// Runs one function on every rank of a group of P ranks (threads), with collectives, messages and deadlock detection.
#pragma once
#include <cstddef>
#include <functional>
#include <vector>
namespace ranks
{
// calls f(rank) on P ranks; rethrows what a rank threw; throws when the ranks deadlock or their collectives do not match
void run(int P, const std::function<void(int)>& f);
int size();
int rank();
// one contribution of every rank, in rank order
std::vector<std::vector<char>> gather(const char* what, long long sig, const void* p, size_t bytes);
void send(int to, const void* p, size_t bytes);
std::vector<char> recv(int from);
}
