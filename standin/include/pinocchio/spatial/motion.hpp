#include <pinocchio/standin.hh>
