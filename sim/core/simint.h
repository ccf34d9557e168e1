#ifndef SIMINT_H
#define SIMINT_H
namespace sim { void setActive(bool); double wallSeconds(); }
#endif
