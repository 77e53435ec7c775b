// What passes between the files of C28: nothing of any library.
#ifndef C28_HPP
#define C28_HPP

struct record_numbers
{
    unsigned long n[7];
};
using c28_add = void (*)(const char *, record_numbers (*)(int), int);

#ifdef RECORD_HPP
namespace
{
record_numbers numbers_of(const record & r)
{
    return {{r.written, r.capacities, r.reads, r.changes, r.again, r.operations, r.failures}};
}
} // namespace
#endif
#endif
