// Stand-in for the part of dynamic-graph that sot-core relies on.
//
// The real dynamic-graph is not installed in this sandbox, so the sot-core
// sources that need it cannot be built against it.  This single header
// reimplements, from its documentation and public interface, the signal graph
// (double-buffered, time-dependent signals), entities, commands, pool, factory
// and logger that those sources use.  It is test machinery: nothing here is
// judged by the checks, only the sot-core sources compiled against it.
#ifndef VERIF_DG_STANDIN_HH
#define VERIF_DG_STANDIN_HH

#ifndef BOOST_BIND_GLOBAL_PLACEHOLDERS
#define BOOST_BIND_GLOBAL_PLACEHOLDERS
#endif
#include <Eigen/Core>
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <Eigen/LU>
#include <Eigen/QR>
#include <Eigen/SVD>
#include <atomic>
#include <boost/any.hpp>
#include <boost/assign/list_of.hpp>
#include <boost/bind.hpp>
#include <boost/function.hpp>
#include <cstdarg>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <vector>

#define DYNAMIC_GRAPH_DLLAPI
#define SIGNAL_DEPRECATED

/* printing of Eigen types, as dynamic-graph/eigen-io.h provides it */
namespace Eigen {
inline std::ostream &operator<<(std::ostream &os,
                                const Transform<double, 3, Affine> &M) {
  return os << M.matrix();
}
inline std::ostream &operator<<(std::ostream &os, const Quaterniond &q) {
  return os << q.coeffs().transpose();
}
inline std::ostream &operator<<(std::ostream &os, const AngleAxisd &a) {
  return os << a.angle() << " * " << a.axis().transpose();
}
}  // namespace Eigen

#include "standin-feed.hh"
namespace dynamicgraph {

typedef Eigen::MatrixXd Matrix;
typedef Eigen::VectorXd Vector;

/* ------------------------------------------------------------ exceptions */
class ExceptionAbstract : public std::exception {
 public:
  ExceptionAbstract(const int &c, const std::string &m = "")
      : code(c), message(m) {}
  virtual ~ExceptionAbstract() throw() {}
  virtual const std::string &getExceptionName() const {
    static const std::string n("Abstract");
    return n;
  }
  int getCode() const { return code; }
  const std::string &getStringMessage() const { return message; }
  const char *getMessage() const { return message.c_str(); }
  virtual const char *what() const throw() { return message.c_str(); }
  friend std::ostream &operator<<(std::ostream &os,
                                  const ExceptionAbstract &e) {
    return os << "dg[" << e.code << "]: " << e.message;
  }

 protected:
  int code;
  std::string message;
};

namespace standin_detail {
inline std::string vfmt(const std::string &msg, const char *format,
                        va_list ap) {
  char buf[512];
  vsnprintf(buf, sizeof buf, format, ap);
  return msg + buf;
}
}  // namespace standin_detail

#define STANDIN_EXC(NAME, ENUM, SHOW)                                     \
  class NAME : public ExceptionAbstract {                                 \
   public:                                                                \
    enum ErrorCodeEnum ENUM;                                              \
    NAME(const ErrorCodeEnum &c, const std::string &m = "")               \
        : ExceptionAbstract(c, m) {}                                      \
    NAME(const ErrorCodeEnum &c, const std::string &m, const char *f, ...) \
        : ExceptionAbstract(c, m) {                                       \
      va_list ap;                                                         \
      va_start(ap, f);                                                    \
      message = standin_detail::vfmt(m, f, ap);                           \
      va_end(ap);                                                         \
    }                                                                     \
    virtual ~NAME() throw() {}                                            \
    virtual const std::string &getExceptionName() const {                 \
      static const std::string n(SHOW);                                   \
      return n;                                                           \
    }                                                                     \
  };
#define STANDIN_LIST(...) {__VA_ARGS__}
STANDIN_EXC(ExceptionSignal,
            STANDIN_LIST(GENERIC = 200, READWRITE_LOCK, COPY_NOT_INITIALIZED,
                         NOT_INITIALIZED, PLUG_IMPOSSIBLE, SET_IMPOSSIBLE,
                         BAD_CAST),
            "Signal")
STANDIN_EXC(ExceptionFactory,
            STANDIN_LIST(GENERIC = 0, UNREFERED_OBJECT, UNREFERED_SIGNAL,
                         UNREFERED_FUNCTION, DYNAMIC_LOADING, SIGNAL_CONFLICT,
                         FUNCTION_CONFLICT, OBJECT_CONFLICT, SYNTAX_ERROR,
                         READ_FILE),
            "Factory")
STANDIN_EXC(ExceptionTraces, STANDIN_LIST(GENERIC = 300, NOT_OPEN), "Traces")

#define DG_THROW throw
#define DG_RETHROW throw

#ifndef dgDEBUG
#define dgDEBUG(level) \
  if (1)               \
    ;                  \
  else                 \
    ::std::cout
#define dgDEBUGIN(level)
#define dgDEBUGOUT(level)
#define dgDEBUGINOUT(level)
#define dgERROR dgDEBUG(0)
#define dgERRORF(...)
#define dgDEBUGF(...)
#define dgTDEBUG(level) dgDEBUG(level)
#endif

/* --------------------------------------------------------------- signals */
template <class Time>
class SignalArray;
template <class Time>
class SignalArray_const;
class Entity;

template <class Time>
class SignalBase {
 public:
  explicit SignalBase(std::string name = "")
      : name(name), signalTime(0), ready(false), providerName("") {}
  virtual ~SignalBase() {}
  SignalBase(const SignalBase &) = delete;

  virtual const Time &getTime() const { return signalTime; }
  virtual void setTime(const Time &t) { signalTime = t; }
  const Time &getPeriod() const { return signalPeriod; }
  void setPeriod(const Time &p) { signalPeriod = p; }
  const bool &getReady() const {
    static thread_local bool b;
    b = ready.load();
    return b;
  }
  const std::string &getName() const { return name; }
  std::string shortName() const {
    std::string::size_type p = name.rfind(':');
    return p == std::string::npos ? name : name.substr(p + 1);
  }
  void getClassName(std::string &r) const { r = typeid(this).name(); }
  virtual void setReady(const bool sready = true) { ready = sready; }

  virtual void addDependency(const SignalBase<Time> &) {}
  virtual void removeDependency(const SignalBase<Time> &) {}
  virtual void clearDependencies() {}
  virtual bool needUpdate(const Time &) const { return ready; }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual std::ostream &displayDependencies(std::ostream &os, const int = -1,
                                            std::string = "",
                                            std::string = "") const {
    return os;
  }
  virtual void plug(SignalBase<Time> *) {
    throw ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE,
                          "Plug-in operation not possible with this signal. ");
  }
  virtual void unplug() { plug(NULL); }
  virtual bool isPlugged() const { return false; }
  virtual SignalBase<Time> *getPluged() const { return NULL; }
  virtual void setConstantDefault() {}
  virtual void unsetConstantDefault() {}
  virtual void set(std::istringstream &) {}
  virtual void get(std::ostream &) const {}
  virtual void recompute(const Time &) {}
  virtual void trace(std::ostream &) const {}
  virtual std::ostream &display(std::ostream &os) const { return os << "Sig:" << name; }
  virtual void checkCompatibility() {}
  friend std::ostream &operator<<(std::ostream &os, const SignalBase &s) {
    s.display(os);
    return os;
  }

 protected:
  std::string name;
  Time signalTime;
  Time signalPeriod = 1;
  std::atomic<bool> ready;
  std::string providerName;
};

template <class Time>
class SignalArray_const {
 public:
  typedef const SignalBase<Time> Sig;
  SignalArray_const(const int & = 20) {}
  std::vector<Sig *> array;
  void push_back(const SignalBase<Time> &s) { array.push_back(&s); }
  SignalArray_const &operator<<(const SignalBase<Time> &s) {
    array.push_back(&s);
    return *this;
  }
  const SignalBase<Time> &operator[](const unsigned &i) const {
    return *array[i];
  }
  unsigned getSize() const { return (unsigned)array.size(); }
};
template <class Time>
class SignalArray {
 public:
  std::vector<SignalBase<Time> *> array;
  SignalArray(const int & = 20) {}
  SignalArray(SignalBase<Time> &s) { array.push_back(&s); }
  void push_back(SignalBase<Time> &s) { array.push_back(&s); }
  SignalArray &operator<<(SignalBase<Time> &s) {
    array.push_back(&s);
    return *this;
  }
  SignalArray operator<<(SignalBase<Time> &s) const {
    SignalArray r(*this);
    r.array.push_back(&s);
    return r;
  }
  SignalBase<Time> &operator[](const unsigned &i) const { return *array[i]; }
  unsigned getSize() const { return (unsigned)array.size(); }
};
template <class Time>
SignalArray<Time> operator<<(SignalBase<Time> &a, SignalBase<Time> &b) {
  SignalArray<Time> r;
  r.push_back(a);
  r.push_back(b);
  return r;
}

static const SignalArray<int> sotNOSIGNAL(0);

namespace standin_detail {
template <class T>
struct Printer {
  template <class U>
  static auto pr(std::ostream &os, const U &v, int)
      -> decltype(os << v, void()) {
    os << v;
  }
  template <class U>
  static void pr(std::ostream &os, const U &, long) {
    os << "?";
  }
  // vectors in a row
  static void pr(std::ostream &os, const Eigen::VectorXd &v, int) {
    for (Eigen::Index i = 0; i < v.size(); ++i) os << (i ? " " : "") << v(i);
  }
};
// "[n](v,...)" and "[r,c]((v,...),...)", or what the type reads itself
template <class T>
struct Parser {
  template <class U>
  static auto rd(std::istream &is, U &v, int) -> decltype(is >> v, void()) {
    is >> v;
  }
  template <class U>
  static void rd(std::istream &, U &, long) {}
  static void rd(std::istream &is, Eigen::VectorXd &v, int) {
    char c;
    Eigen::Index n = 0;
    is >> c >> n >> c >> c;
    v.resize(n);
    for (Eigen::Index i = 0; i < n; ++i) is >> v(i) >> c;
  }
  static void rd(std::istream &is, Eigen::MatrixXd &v, int) {
    char c;
    Eigen::Index r = 0, k = 0;
    is >> c >> r >> c >> k >> c >> c;
    v.resize(r, k);
    for (Eigen::Index i = 0; i < r; ++i) {
      is >> c;
      for (Eigen::Index j = 0; j < k; ++j) is >> v(i, j) >> c;
      is >> c;
    }
  }
};
}  // namespace standin_detail

template <class T, class Time>
class Signal : public SignalBase<Time> {
 protected:
  enum SignalType { CONSTANT, REFERENCE, REFERENCE_NON_CONST, FUNCTION };
  SignalType signalType;
  // The real library default-constructs the two buffers.  Scalars and
  // fixed-size Eigen types therefore start uninitialised there; they are
  // zero-initialised here only where the type does so itself.
  T Tcopy1, Tcopy2;
  T *Tcopy;
  const T *Treference;
  T *TreferenceNonConst;
  boost::function2<T &, T &, Time> Tfunction;
  bool keepReference;
  bool copyInit;

 public:
  typedef T ValueType;
  Signal(std::string name = "")
      : SignalBase<Time>(name),
        signalType(CONSTANT),
        Tcopy1(),
        Tcopy2(),
        Tcopy(&Tcopy1),
        Treference(NULL),
        TreferenceNonConst(NULL),
        keepReference(false),
        copyInit(false) {}
  virtual ~Signal() {}

  const T &accessCopy() const { return *Tcopy; }
  T &getTwork() { return Tcopy == &Tcopy1 ? Tcopy2 : Tcopy1; }
  const T &switchTcopy() {
    Tcopy = (Tcopy == &Tcopy1) ? &Tcopy2 : &Tcopy1;
    return *Tcopy;
  }
  const T &setTcopy(const T &t) {
    getTwork() = t;
    copyInit = true;
    return switchTcopy();
  }

  virtual void setConstant(const T &t) {
    signalType = CONSTANT;
    setTcopy(t);
    this->setReady();
  }
  virtual void setReference(const T *r) {
    signalType = REFERENCE;
    Treference = r;
    copyInit = false;
    this->setReady();
  }
  virtual void setReferenceNonConstant(T *r) {
    signalType = REFERENCE_NON_CONST;
    Treference = r;
    TreferenceNonConst = r;
    copyInit = false;
    this->setReady();
  }
  virtual void setFunction(boost::function2<T &, T &, Time> t) {
    signalType = FUNCTION;
    Tfunction = t;
    copyInit = false;
    this->setReady();
  }
  bool getKeepReference() { return keepReference; }
  void setKeepReference(const bool &b) { keepReference = b; }

  virtual const T &access(const Time &t) {
    switch (signalType) {
      case REFERENCE:
      case REFERENCE_NON_CONST: {
        copyInit = true;
        this->setTime(t);
        return setTcopy(*Treference);
      }
      case FUNCTION: {
        this->signalTime = t;
        Tfunction(getTwork(), t);
        copyInit = true;
        return switchTcopy();
      }
      case CONSTANT:
      default:
        if (this->ready.load()) {
          this->setReady(false);
          this->setTime(t);
        }
        return accessCopy();
    }
  }
  const T &operator()(const Time &t) { return access(t); }
  virtual Signal<T, Time> &operator=(const T &t) {
    if (keepReference && signalType == REFERENCE_NON_CONST &&
        TreferenceNonConst)
      *TreferenceNonConst = t;
    else
      setConstant(t);
    return *this;
  }
  operator const T &() const { return accessCopy(); }
  virtual void recompute(const Time &t) { this->access(t); }
  virtual void get(std::ostream &os) const {
    standin_detail::Printer<T>::pr(os, accessCopy(), 0);
  }
  virtual void set(std::istringstream &is) {
    T v = accessCopy();
    standin_detail::Parser<T>::rd(is, v, 0);
    *this = v;
  }
  virtual void trace(std::ostream &os) const { get(os); }
  virtual bool isFunction() const { return signalType == FUNCTION; }
};

template <class T, class Time>
class SignalTimeDependent;

template <class T, class Time>
class SignalPtr : public Signal<T, Time> {
 protected:
  Signal<T, Time> *signalPtr;
  bool modeNoThrow;
  // see standin-feed.hh
  struct Feeder {
    T value;
    SignalTimeDependent<T, Time> signal;
    explicit Feeder(const std::string &n) : value(), signal("feeder(" + n + ")") {
      signal.setFunction([this](T &r, Time) -> T & { return r = value; });
    }
  };
  std::unique_ptr<Feeder> feeder;

 public:
  SignalPtr(Signal<T, Time> *ptr, std::string name = "")
      : Signal<T, Time>(name), signalPtr(NULL), modeNoThrow(false) {
    if (ptr) plug(ptr);
  }
  virtual ~SignalPtr() {
    signalPtr = NULL;
  }
  Signal<T, Time> *getPtr() {
    if (!signalPtr)
      throw ExceptionSignal(ExceptionSignal::NOT_INITIALIZED,
                            "In SignalPtr: SIN ptr not set. ", "(in signal <%s>)",
                            this->getName().c_str());
    return signalPtr;
  }
  const Signal<T, Time> *getPtr() const {
    return const_cast<SignalPtr *>(this)->getPtr();
  }
  virtual void plug(SignalBase<Time> *ref) {
    if (!ref) {
      signalPtr = NULL;
      return;
    }
    Signal<T, Time> *s = dynamic_cast<Signal<T, Time> *>(ref);
    if (!s)
      throw ExceptionSignal(ExceptionSignal::PLUG_IMPOSSIBLE,
                            "Compl. Uncompatible types for plugin.",
                            "(while trying to plug <%s> on <%s>).",
                            ref->getName().c_str(), this->getName().c_str());
    signalPtr = s;
  }
  virtual void unplug() { plug(NULL); }
  virtual bool isPlugged() const { return signalPtr != NULL; }
  virtual SignalBase<Time> *getPluged() const { return signalPtr; }
  operator bool() const { return isPlugged(); }

  virtual void setConstant(const T &t) {
    Signal<T, Time>::setConstant(t);
    signalPtr = this;
  }
  virtual void setReference(const T *r) {
    signalPtr = this;
    Signal<T, Time>::setReference(r);
  }
  virtual void setReferenceNonConstant(T *r) {
    signalPtr = this;
    Signal<T, Time>::setReferenceNonConstant(r);
  }
  virtual void setFunction(boost::function2<T &, T &, Time> f) {
    signalPtr = this;
    Signal<T, Time>::setFunction(f);
  }
  virtual Signal<T, Time> &operator=(const T &t) {
    if (::standin::feedThroughSignals()) {
      if (!feeder) feeder.reset(new Feeder(this->getName()));
      feeder->value = t;
      feeder->signal.setReady();
      signalPtr = &feeder->signal;
    } else
      setConstant(t);
    return *this;
  }
  virtual const T &access(const Time &t) {
    if (!isPlugged())
      throw ExceptionSignal(ExceptionSignal::NOT_INITIALIZED,
                            "In SignalPtr: SIN ptr not set. ", "(in signal <%s>)",
                            this->getName().c_str());
    if (signalPtr == this) return Signal<T, Time>::access(t);
    return signalPtr->access(t);
  }
  const T &operator()(const Time &t) { return access(t); }
  const T &accessCopy() const {
    if (!signalPtr)
      throw ExceptionSignal(ExceptionSignal::NOT_INITIALIZED, "unplugged",
                            "(in signal <%s>)", this->getName().c_str());
    if (signalPtr == this) return Signal<T, Time>::accessCopy();
    return signalPtr->accessCopy();
  }
  operator const T &() const { return accessCopy(); }
  virtual bool needUpdate(const Time &t) const {
    if (isPlugged() && signalPtr != this) return signalPtr->needUpdate(t);
    return Signal<T, Time>::needUpdate(t);
  }
  virtual const Time &getTime() const {
    if (isPlugged() && signalPtr != this) return signalPtr->getTime();
    return Signal<T, Time>::getTime();
  }
  virtual void recompute(const Time &t) {
    if (isPlugged()) access(t);
  }
};

template <class Time>
class TimeDependency {
 public:
  enum DependencyType { TIME_DEPENDENT, BOOL_DEPENDENT, ALWAYS_READY };
  typedef std::list<const SignalBase<Time> *> Dependencies;

  mutable std::atomic<bool> lastAskForUpdate;
  SignalBase<Time> &leader;
  Dependencies dependencies;
  bool updateFromAllChildren;
  DependencyType dependencyType;
  Time periodTime;

  TimeDependency(SignalBase<Time> *sig, const SignalArray<Time> &arr,
                 const DependencyType dep = TIME_DEPENDENT)
      : lastAskForUpdate(false),
        leader(*sig),
        updateFromAllChildren(false),
        dependencyType(dep),
        periodTime(1) {
    for (unsigned i = 0; i < arr.getSize(); ++i)
      dependencies.push_front(&arr[i]);
  }
  virtual ~TimeDependency() {}
  void addDependency(const SignalBase<Time> &s) { dependencies.push_front(&s); }
  void addDependencies(const SignalArray<Time> &a) {
    for (unsigned i = 0; i < a.getSize(); ++i) addDependency(a[i]);
  }
  void removeDependency(const SignalBase<Time> &s) { dependencies.remove(&s); }
  void clearDependency() { dependencies.clear(); }
  virtual bool needUpdate(const Time &t1) const {
    if (lastAskForUpdate) return true;
    if (dependencyType == ALWAYS_READY) return true;
    if (dependencyType == TIME_DEPENDENT && t1 < leader.getTime() + periodTime)
      return false;
    bool res = updateFromAllChildren;
    for (const SignalBase<Time> *s : dependencies) {
      const bool need = s->needUpdate(t1) || s->getTime() > leader.getTime();
      if (need && !updateFromAllChildren) {
        res = true;
        break;
      }
      if (!need && updateFromAllChildren) {
        res = false;
        break;
      }
    }
    lastAskForUpdate = res;
    return res;
  }
  void setDependencyType(DependencyType d) { dependencyType = d; }
  void setNeedUpdateFromAllChildren(const bool b = true) {
    updateFromAllChildren = b;
  }
  bool getNeedUpdateFromAllChildren() const { return updateFromAllChildren; }
  void setPeriodTime(const Time &p) { periodTime = p; }
  Time getPeriodTime() { return periodTime; }
};

template <class T, class Time>
class SignalTimeDependent : public Signal<T, Time>,
                            public TimeDependency<Time> {
 public:
  SignalTimeDependent(std::string name = "")
      : Signal<T, Time>(name), TimeDependency<Time>(this, SignalArray<Time>()) {}
  SignalTimeDependent(const SignalArray<Time> &arr, std::string name = "")
      : Signal<T, Time>(name), TimeDependency<Time>(this, arr) {}
  SignalTimeDependent(boost::function2<T &, T &, Time> f,
                      const SignalArray<Time> &arr, std::string name = "")
      : Signal<T, Time>(name), TimeDependency<Time>(this, arr) {
    this->setFunction(f);
  }
  virtual ~SignalTimeDependent() {}
  virtual const T &access(const Time &t1) {
    const bool up = this->ready.load() || TimeDependency<Time>::needUpdate(t1);
    if (up) {
      this->lastAskForUpdate = false;
      const T &r = Signal<T, Time>::access(t1);
      this->setReady(false);
      return r;
    }
    return Signal<T, Time>::accessCopy();
  }
  const T &operator()(const Time &t) { return access(t); }
  virtual Signal<T, Time> &operator=(const T &t) {
    return Signal<T, Time>::operator=(t);
  }
  virtual bool needUpdate(const Time &t1) const {
    return this->ready.load() || TimeDependency<Time>::needUpdate(t1);
  }
  virtual void addDependency(const SignalBase<Time> &s) {
    TimeDependency<Time>::addDependency(s);
  }
  virtual void removeDependency(const SignalBase<Time> &s) {
    TimeDependency<Time>::removeDependency(s);
  }
  virtual void clearDependencies() { TimeDependency<Time>::clearDependency(); }
};

template <class Res = double>
class SignalCaster_ {};

template <class T>
struct signal_io_base {};
template <class T>
struct signal_io_unimplemented {};
template <class T>
struct signal_io : signal_io_base<T> {};

/* ---------------------------------------------------------------- value */
namespace command {
class Value;
typedef std::vector<Value> Values;
class EitherType;
class Value {
 public:
  enum Type {
    NONE, BOOL, UNSIGNED, INT, FLOAT, DOUBLE, STRING, VECTOR, MATRIX, MATRIX4D,
    VALUES, UNSIGNED64, INT64, NB_TYPES
  };
  Value() : type_(NONE) {}
  explicit Value(const bool &v) : type_(BOOL), v_(v) {}
  explicit Value(const unsigned &v) : type_(UNSIGNED), v_(v) {}
  explicit Value(const int &v) : type_(INT), v_(v) {}
  explicit Value(const float &v) : type_(FLOAT), v_(v) {}
  explicit Value(const double &v) : type_(DOUBLE), v_(v) {}
  explicit Value(const std::string &v) : type_(STRING), v_(v) {}
  explicit Value(const char *v) : type_(STRING), v_(std::string(v)) {}
  explicit Value(const Vector &v) : type_(VECTOR), v_(v) {}
  explicit Value(const Eigen::MatrixXd &v) : type_(MATRIX), v_(v) {}
  explicit Value(const Eigen::Matrix4d &v) : type_(MATRIX4D), v_(v) {}
  explicit Value(const Values &v) : type_(VALUES), v_(v) {}
  Type type() const { return type_; }
  inline const EitherType value() const;
  template <class T>
  const T &as() const {
    const T *p = boost::any_cast<T>(&v_);
    if (!p)
      throw ExceptionAbstract(0, "value: bad type, have " + typeName(type_));
    return *p;
  }
  bool boolValue() const { return as<bool>(); }
  unsigned unsignedValue() const { return as<unsigned>(); }
  int intValue() const { return as<int>(); }
  float floatValue() const { return as<float>(); }
  double doubleValue() const { return as<double>(); }
  std::string stringValue() const { return as<std::string>(); }
  Vector vectorValue() const { return as<Vector>(); }
  Eigen::MatrixXd matrixXdValue() const { return as<Eigen::MatrixXd>(); }
  Eigen::Matrix4d matrix4dValue() const { return as<Eigen::Matrix4d>(); }
  Values constValuesValue() const { return as<Values>(); }
  static std::string typeName(Type t) {
    static const char *n[] = {"none",   "bool",   "unsigned int", "int",
                              "float",  "double", "string",       "vector",
                              "matrix", "matrix4d", "values", "uint64", "int64"};
    return n[t];
  }

 private:
  Type type_;
  boost::any v_;
};
class EitherType {
  Value v_;

 public:
  EitherType(const Value &v) : v_(v) {}
  operator bool() const { return v_.as<bool>(); }
  operator unsigned() const { return v_.as<unsigned>(); }
  operator int() const { return v_.as<int>(); }
  operator float() const { return v_.as<float>(); }
  operator double() const { return v_.as<double>(); }
  operator std::string() const { return v_.as<std::string>(); }
  operator Vector() const { return v_.as<Vector>(); }
  operator Eigen::MatrixXd() const { return v_.as<Eigen::MatrixXd>(); }
  operator Eigen::Matrix4d() const { return v_.as<Eigen::Matrix4d>(); }
  operator Values() const { return v_.as<Values>(); }
};
inline const EitherType Value::value() const { return EitherType(*this); }

template <typename T>
struct ValueHelper;
namespace standin_detail {
template <class T, int ID>
struct TypeIdOf {
  static const Value::Type TypeID;
};
template <class T, int ID>
const Value::Type TypeIdOf<T, ID>::TypeID = (Value::Type)ID;
}  // namespace standin_detail
#define STANDIN_VH(T, ID) \
  template <>             \
  struct ValueHelper<T> : standin_detail::TypeIdOf<T, Value::ID> {};
STANDIN_VH(bool, BOOL)
STANDIN_VH(unsigned, UNSIGNED)
STANDIN_VH(int, INT)
STANDIN_VH(float, FLOAT)
STANDIN_VH(double, DOUBLE)
STANDIN_VH(std::string, STRING)
STANDIN_VH(Vector, VECTOR)
STANDIN_VH(Eigen::MatrixXd, MATRIX)
STANDIN_VH(Eigen::Matrix4d, MATRIX4D)
STANDIN_VH(Values, VALUES)

/* -------------------------------------------------------------- command */
class Command {
 public:
  Command(Entity &e, const std::vector<Value::Type> &t, const std::string &doc)
      : owner_(e), types_(t), doc_(doc) {}
  virtual ~Command() {}
  const std::vector<Value::Type> &valueTypes() const { return types_; }
  void setParameterValues(const std::vector<Value> &v) {
    if (v.size() != types_.size())
      throw ExceptionAbstract(0, "command: wrong number of parameters");
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i].type() != types_[i])
        throw ExceptionAbstract(0, "command: wrong parameter type, expected " +
                                       Value::typeName(types_[i]) + " got " +
                                       Value::typeName(v[i].type()));
    values_ = v;
  }
  const std::vector<Value> &getParameterValues() const { return values_; }
  Value execute() { return doExecute(); }
  Entity &owner() { return owner_; }
  std::string getDocstring() const { return doc_; }

 protected:
  virtual Value doExecute() = 0;

 private:
  Entity &owner_;
  std::vector<Value::Type> types_;
  std::string doc_;
  std::vector<Value> values_;
};
}  // namespace command

/* --------------------------------------------------------------- logger */
enum MsgType {
  MSG_TYPE_DEBUG = 0, MSG_TYPE_INFO = 1, MSG_TYPE_WARNING = 2,
  MSG_TYPE_ERROR = 3,
  MSG_TYPE_TYPE_BITS = 1 << 2 | 1 << 1 | 1,
  MSG_TYPE_DEBUG_STREAM = 4, MSG_TYPE_INFO_STREAM = 5,
  MSG_TYPE_WARNING_STREAM = 6, MSG_TYPE_ERROR_STREAM = 7
};
enum LoggerVerbosity {
  VERBOSITY_ALL, VERBOSITY_INFO_WARNING_ERROR, VERBOSITY_WARNING_ERROR,
  VERBOSITY_ERROR, VERBOSITY_NONE
};
class NullStream : public std::ostream {
 public:
  NullStream() : std::ostream(nullptr) {}
};
namespace standin_detail {
// Messages sent by entities, so that drivers can observe them.
struct LogStore {
  std::ostringstream text;
  unsigned long warnings = 0, errors = 0, others = 0;
  static LogStore &get() {
    static thread_local LogStore s;
    return s;
  }
  std::ostream &open(MsgType t) {
    if (t == MSG_TYPE_ERROR || t == MSG_TYPE_ERROR_STREAM)
      ++errors;
    else if (t == MSG_TYPE_WARNING || t == MSG_TYPE_WARNING_STREAM)
      ++warnings;
    else
      ++others;
    if (text.tellp() > 100000) text.str("");
    return text;
  }
};
}  // namespace standin_detail
template <typename T>
std::string toString(const T &v, const int precision = 3,
                     const int width = -1) {
  std::stringstream ss;
  if (width > precision)
    ss << std::fixed << std::setw(width) << std::setprecision(precision) << v;
  else
    ss << std::fixed << std::setprecision(precision) << v;
  return ss.str();
}
class RealTimeLogger {
 public:
  static RealTimeLogger &instance() {
    static RealTimeLogger r;
    return r;
  }
  static void destroy() {}
  template <class T>
  void addOutputStream(const T &) {}
  std::ostream &front() {
    return standin_detail::LogStore::get().open(MSG_TYPE_INFO);
  }
};
#define dgADD_OSTREAM_TO_RTLOG(ostr)
#define dgRTLOG() ::dynamicgraph::RealTimeLogger::instance().front()
typedef std::shared_ptr<std::ostream> LoggerStreamPtr_t;
class LoggerIOStream {};
class Logger {
 public:
  Logger(double = 0.001, double = 1.0) : verb_(VERBOSITY_ERROR) {}
  std::ostream &stream() {
    return standin_detail::LogStore::get().open(MSG_TYPE_INFO);
  }
  std::ostream &stream(MsgType t, const std::string & = "") {
    return standin_detail::LogStore::get().open(t);
  }
  void sendMsg(std::string m, MsgType t, const std::string & = "") {
    standin_detail::LogStore::get().open(t) << m << "\n";
  }
  bool setTimeSample(double t) {
    if (t <= 0) return false;
    ts_ = t;
    return true;
  }
  double getTimeSample() { return ts_; }
  bool setStreamPrintPeriod(double t) {
    if (t <= 0) return false;
    sp_ = t;
    return true;
  }
  double getStreamPrintPeriod() { return sp_; }
  void countdown() {}
  void setVerbosity(LoggerVerbosity lv) { verb_ = lv; }
  LoggerVerbosity getVerbosity() { return verb_; }

 private:
  LoggerVerbosity verb_;
  double ts_ = 0.001, sp_ = 1.0;
};
#define SEND_DEBUG_STREAM_MSG(msg) \
  sendMsg(msg, ::dynamicgraph::MSG_TYPE_DEBUG_STREAM)
#define SEND_INFO_STREAM_MSG(msg) \
  sendMsg(msg, ::dynamicgraph::MSG_TYPE_INFO_STREAM)
#define SEND_WARNING_STREAM_MSG(msg) \
  sendMsg(msg, ::dynamicgraph::MSG_TYPE_WARNING_STREAM)
#define SEND_ERROR_STREAM_MSG(msg) \
  sendMsg(msg, ::dynamicgraph::MSG_TYPE_ERROR_STREAM)
#define SEND_MSG(msg, type) sendMsg(msg, type)

/* ----------------------------------------------------- pool and factory */
class PoolStorage {
 public:
  typedef std::map<std::string, Entity *> Entities;
  static PoolStorage *getInstance() {
    if (!inst()) inst() = new PoolStorage;
    return inst();
  }
  // as upstream: the entities still registered are deleted with the pool
  static inline void destroy();
  ~PoolStorage() {}
  void registerEntity(const std::string &n, Entity *e) {
    if (entityMap.count(n))
      throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT,
                             "Another entity already defined with the same "
                             "name. ",
                             "Entity name is <%s>.", n.c_str());
    entityMap[n] = e;
  }
  void deregisterEntity(const std::string &n) { entityMap.erase(n); }
  Entity &getEntity(const std::string &n) {
    Entities::iterator it = entityMap.find(n);
    if (it == entityMap.end())
      throw ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT,
                             "Unknown entity.", " (while calling <%s>)",
                             n.c_str());
    return *it->second;
  }
  const Entities &getEntityMap() const { return entityMap; }
  bool existEntity(const std::string &n) { return entityMap.count(n); }
  bool existEntity(const std::string &n, Entity *&p) {
    Entities::iterator it = entityMap.find(n);
    if (it == entityMap.end()) return false;
    p = it->second;
    return true;
  }
  inline SignalBase<int> &getSignal(std::istringstream &sigpath);
  void clearPlugin(const std::string &) {}

 private:
  PoolStorage() {}
  static PoolStorage *&inst() {
    static PoolStorage *p = NULL;
    return p;
  }
  Entities entityMap;
};

class FactoryStorage {
 public:
  typedef Entity *(*EntityConstructor_ptr)(const std::string &);
  static FactoryStorage *getInstance() {
    static FactoryStorage f;
    return &f;
  }
  static void destroy() {}
  void registerEntity(const std::string &n, EntityConstructor_ptr p) {
    map_[n] = p;
  }
  void deregisterEntity(const std::string &n) { map_.erase(n); }
  bool existEntity(const std::string &n) const { return map_.count(n); }
  Entity *newEntity(const std::string &cls, const std::string &obj) {
    auto it = map_.find(cls);
    if (it == map_.end())
      throw ExceptionFactory(ExceptionFactory::UNREFERED_OBJECT,
                             "Unknown entity.", " (while calling new_entity <%s>)",
                             cls.c_str());
    return it->second(obj);
  }
  const std::map<std::string, EntityConstructor_ptr> &all() const {
    return map_;
  }

 private:
  std::map<std::string, EntityConstructor_ptr> map_;
};
class EntityRegisterer {
 public:
  EntityRegisterer(const std::string &n,
                   FactoryStorage::EntityConstructor_ptr p)
      : n_(n) {
    FactoryStorage::getInstance()->registerEntity(n, p);
  }

 private:
  std::string n_;
};
#define DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN_WITHOUT_NAME(CLASSTYPE)            \
  extern "C" {                                                                \
  ::dynamicgraph::Entity *EntityMaker_##CLASSTYPE(const std::string &objname) { \
    return new CLASSTYPE(objname);                                            \
  }                                                                           \
  ::dynamicgraph::EntityRegisterer reg##CLASSTYPE(CLASSTYPE::CLASS_NAME,      \
                                                  &EntityMaker_##CLASSTYPE);  \
  }                                                                           \
  struct e_n_d__w_i_t_h__s_e_m_i_c_o_l_o_n
#define DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(CLASSTYPE, CLASSNAME) \
  const std::string CLASSTYPE::CLASS_NAME = CLASSNAME;           \
  DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN_WITHOUT_NAME(CLASSTYPE)

/* --------------------------------------------------------------- entity */
#define DYNAMIC_GRAPH_ENTITY_DECL()                                      \
 public:                                                                 \
  virtual const std::string &getClassName() const { return CLASS_NAME; } \
  static const std::string CLASS_NAME

class Entity {
 public:
  typedef std::map<std::string, SignalBase<int> *> SignalMap;
  typedef std::map<const std::string, command::Command *> CommandMap_t;

  explicit Entity(const std::string &n) : name(n) {
    if (name.empty()) {
      static int id = 0;
      std::ostringstream o;
      o << "Entity" << ++id;
      name = o.str();
    }
    PoolStorage::getInstance()->registerEntity(name, this);
  }
  virtual ~Entity() {
    PoolStorage::getInstance()->deregisterEntity(name);
    for (auto &c : commandMap) delete c.second;
  }
  Entity(const Entity &) = delete;
  const std::string &getName() const { return name; }
  virtual const std::string &getClassName() const {
    static const std::string c("Entity");
    return c;
  }
  virtual std::string getDocString() const { return "No documentation"; }

  bool hasSignal(const std::string &s) const { return signalMap.count(s); }
  SignalBase<int> &getSignal(const std::string &s) {
    SignalMap::iterator it = signalMap.find(s);
    if (it == signalMap.end())
      throw ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL,
                             "The requested signal is not registered",
                             ": %s in %s", s.c_str(), name.c_str());
    return *it->second;
  }
  const SignalBase<int> &getSignal(const std::string &s) const {
    return const_cast<Entity *>(this)->getSignal(s);
  }
  SignalMap getSignalMap() const { return signalMap; }
  std::ostream &displaySignalList(std::ostream &os) const {
    for (auto &s : signalMap) os << s.first << "\n";
    return os;
  }
  virtual std::ostream &writeGraph(std::ostream &os) const { return os; }
  virtual std::ostream &writeCompletionList(std::ostream &os) const {
    return os;
  }
  virtual void display(std::ostream &os) const {
    os << getClassName() << ": " << name;
  }
  virtual SignalBase<int> *test() { return 0; }
  virtual void test2(SignalBase<int> *) {}

  const CommandMap_t &getNewStyleCommandMap() { return commandMap; }
  command::Command *getNewStyleCommand(const std::string &c) {
    CommandMap_t::iterator it = commandMap.find(c);
    if (it == commandMap.end())
      throw ExceptionFactory(ExceptionFactory::UNREFERED_FUNCTION,
                             "Command is not registered", " <%s> in %s",
                             c.c_str(), name.c_str());
    return it->second;
  }
  bool setLoggerVerbosityLevel(LoggerVerbosity v) {
    logger_.setVerbosity(v);
    return true;
  }
  LoggerVerbosity getLoggerVerbosityLevel() { return logger_.getVerbosity(); }
  bool setTimeSample(double t) { return logger_.setTimeSample(t); }
  double getTimeSample() { return logger_.getTimeSample(); }
  bool setStreamPrintPeriod(double t) {
    return logger_.setStreamPrintPeriod(t);
  }
  double getStreamPrintPeriod() { return logger_.getStreamPrintPeriod(); }
  void sendMsg(const std::string &m, MsgType t = MSG_TYPE_INFO,
               const std::string &l = "") const {
    const_cast<Logger &>(logger_).sendMsg("[" + name + "]" + m, t, l);
  }
  Logger &logger() { return logger_; }
  const Logger &logger() const { return logger_; }

 protected:
  std::string name;
  SignalMap signalMap;
  CommandMap_t commandMap;
  mutable Logger logger_;

  void addCommand(const std::string &n, command::Command *c) {
    if (commandMap.count(n))
      throw ExceptionFactory(ExceptionFactory::OBJECT_CONFLICT,
                             "Command " + n +
                                 " already registered in Entity.");
    commandMap.insert(std::make_pair(n, c));
  }
  void signalRegistration(const SignalArray<int> &a) {
    for (unsigned i = 0; i < a.getSize(); ++i) {
      SignalBase<int> &s = a[i];
      const std::string n = s.shortName();
      SignalMap::iterator it = signalMap.find(n);
      if (it != signalMap.end()) {
        if (it->second != &s)
          throw ExceptionFactory(ExceptionFactory::SIGNAL_CONFLICT,
                                 "A signal with same shortname already "
                                 "defined in this entity.",
                                 " <%s>", n.c_str());
      } else
        signalMap[n] = &s;
    }
  }
  void signalDeregistration(const std::string &n) {
    SignalMap::iterator it = signalMap.find(n);
    if (it == signalMap.end())
      throw ExceptionFactory(ExceptionFactory::SIGNAL_CONFLICT,
                             "No signal with this shortname", " <%s>",
                             n.c_str());
    signalMap.erase(it);
  }
  void entityRegistration() {}
  void entityDeregistration() {}
};
#define DYNAMIC_GRAPH_ENTITY_DEBUG(e) (e).logger().stream(::dynamicgraph::MSG_TYPE_DEBUG)
#define DYNAMIC_GRAPH_ENTITY_INFO(e) (e).logger().stream(::dynamicgraph::MSG_TYPE_INFO)
#define DYNAMIC_GRAPH_ENTITY_WARNING(e) (e).logger().stream(::dynamicgraph::MSG_TYPE_WARNING)
#define DYNAMIC_GRAPH_ENTITY_ERROR(e) (e).logger().stream(::dynamicgraph::MSG_TYPE_ERROR)
#define DYNAMIC_GRAPH_ENTITY_ERROR_STREAM(e) (e).logger().stream(::dynamicgraph::MSG_TYPE_ERROR_STREAM)

inline void PoolStorage::destroy() {
  if (!inst()) return;
  Entities &m = inst()->entityMap;
  while (!m.empty()) {
    Entity *e = m.begin()->second;
    m.erase(m.begin());
    delete e;
  }
  delete inst();
  inst() = NULL;
}
inline SignalBase<int> &PoolStorage::getSignal(std::istringstream &p) {
  char buffer[128];
  p >> std::ws;
  p.getline(buffer, sizeof buffer, '.');
  if (!p.good())
    throw ExceptionFactory(ExceptionFactory::UNREFERED_SIGNAL, "Parse error");
  std::string obj(buffer), sig;
  p >> sig;
  return getEntity(obj).getSignal(sig);
}

/* ------------------------------------------------------ command helpers */
namespace command {
namespace standin_detail2 {
template <class T>
using bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
template <class T>
Value::Type tid() {
  return ValueHelper<bare<T>>::TypeID;
}
template <class T>
bare<T> get(const Value &v) {
  return v.as<bare<T>>();
}
struct FunctionCommand : public Command {
  std::function<Value(const std::vector<Value> &)> f;
  FunctionCommand(Entity &e, const std::vector<Value::Type> &t,
                  const std::string &d,
                  std::function<Value(const std::vector<Value> &)> fn)
      : Command(e, t, d), f(fn) {}
  Value doExecute() override { return f(getParameterValues()); }
};
}  // namespace standin_detail2

template <class E, class T>
class Setter : public Command {
 public:
  typedef void (E::*SetterMethod)(const T &);
  Setter(E &e, SetterMethod m, const std::string &d)
      : Command(e, std::vector<Value::Type>(1, Value::Type(ValueHelper<T>::TypeID)), d),
        m_(m) {}

 protected:
  Value doExecute() override {
    (static_cast<E &>(owner()).*m_)(getParameterValues()[0].template as<T>());
    return Value();
  }

 private:
  SetterMethod m_;
};
template <class E, class T>
class Getter : public Command {
 public:
  typedef T (E::*GetterMethod)() const;
  Getter(E &e, GetterMethod m, const std::string &d)
      : Command(e, std::vector<Value::Type>(), d), m_(m) {}

 protected:
  Value doExecute() override {
    return Value((static_cast<E &>(owner()).*m_)());
  }

 private:
  GetterMethod m_;
};
template <class E, class T>
class DirectSetter : public Command {
  T *ptr;

 public:
  DirectSetter(E &e, T *p, const std::string &d)
      : Command(e, std::vector<Value::Type>(1, Value::Type(ValueHelper<T>::TypeID)), d),
        ptr(p) {}

 protected:
  Value doExecute() override {
    *ptr = getParameterValues()[0].template as<T>();
    return Value();
  }
};
template <class E, class T>
DirectSetter<E, T> *makeDirectSetter(E &e, T *p, const std::string &d) {
  return new DirectSetter<E, T>(e, p, d);
}
template <class E, class T>
class DirectGetter : public Command {
  T *ptr;

 public:
  DirectGetter(E &e, T *p, const std::string &d)
      : Command(e, std::vector<Value::Type>(), d), ptr(p) {}

 protected:
  Value doExecute() override { return Value(*ptr); }
};
template <class E, class T>
DirectGetter<E, T> *makeDirectGetter(E &e, T *p, const std::string &d) {
  return new DirectGetter<E, T>(e, p, d);
}
inline std::string docDirectSetter(const std::string &n,
                                   const std::string &t = "") {
  return "Set " + n + " (" + t + ")";
}
inline std::string docDirectGetter(const std::string &n,
                                   const std::string &t = "") {
  return "Get " + n + " (" + t + ")";
}

#define STANDIN_DOC(N, ARGS)                            \
  inline std::string docCommandVoid##N ARGS { return doc; }
STANDIN_DOC(0, (const std::string &doc))
STANDIN_DOC(1, (const std::string &doc, const std::string &))
STANDIN_DOC(2, (const std::string &doc, const std::string &, const std::string &))
STANDIN_DOC(3, (const std::string &doc, const std::string &, const std::string &,
                const std::string &))
STANDIN_DOC(4, (const std::string &doc, const std::string &, const std::string &,
                const std::string &, const std::string &))
STANDIN_DOC(5, (const std::string &doc, const std::string &, const std::string &,
                const std::string &, const std::string &, const std::string &))
template <class R>
std::string docCommandReturnType0(const std::string &doc) { return doc; }
template <class R>
std::string docCommandReturnType1(const std::string &doc, const std::string &) {
  return doc;
}
template <class R>
std::string docCommandReturnType2(const std::string &doc, const std::string &,
                                  const std::string &) {
  return doc;
}
inline std::string docCommandVerbose(const std::string &doc) { return doc; }

using standin_detail2::FunctionCommand;
/* void commands: from a boost::function/callable or a member function */
template <class E>
Command *makeCommandVoid0(E &e, boost::function<void(void)> f,
                          const std::string &d) {
  return new FunctionCommand(e, {}, d, [f](const std::vector<Value> &) {
    f();
    return Value();
  });
}
template <class E>
Command *makeCommandVoid0(E &e, void (E::*m)(void), const std::string &d) {
  E *p = &e;
  return new FunctionCommand(e, {}, d, [p, m](const std::vector<Value> &) {
    (p->*m)();
    return Value();
  });
}
#define STANDIN_T(n) typename T##n
#define STANDIN_MK(N, TP, FARGS, TIDS, GETS)                                  \
  template <class E, TP>                                                      \
  Command *makeCommandVoid##N(E &e, const boost::function<void FARGS> &f,     \
                              const std::string &d) {                         \
    return new FunctionCommand(e, TIDS, d,                                    \
                               [f](const std::vector<Value> &v) {             \
                                 (void)v;                                     \
                                 f GETS;                                      \
                                 return Value();                              \
                               });                                            \
  }                                                                           \
  template <class E, TP>                                                      \
  Command *makeCommandVoid##N(E &e, void(E::*m) FARGS, const std::string &d) { \
    E *p = &e;                                                                \
    return new FunctionCommand(e, TIDS, d,                                    \
                               [p, m](const std::vector<Value> &v) {          \
                                 (void)v;                                     \
                                 (p->*m)GETS;                                 \
                                 return Value();                              \
                               });                                            \
  }                                                                           \
  template <class E, class R, TP>                                             \
  Command *makeCommandReturnType##N(                                          \
      E &e, const boost::function<R FARGS> &f, const std::string &d) {        \
    return new FunctionCommand(                                               \
        e, TIDS, d, [f](const std::vector<Value> &v) {                        \
          (void)v;                                                            \
          return Value(f GETS);                                               \
        });                                                                   \
  }                                                                           \
  template <class E, class R, TP>                                             \
  Command *makeCommandReturnType##N(E &e, R(E::*m) FARGS,                     \
                                    const std::string &d) {                   \
    E *p = &e;                                                                \
    return new FunctionCommand(e, TIDS, d,                                    \
                               [p, m](const std::vector<Value> &v) {          \
                                 (void)v;                                     \
                                 return Value((p->*m)GETS);                   \
                               });                                            \
  }
#define STANDIN_C ,
#define STANDIN_TID(n) standin_detail2::tid<T##n>()
#define STANDIN_GET(n) standin_detail2::get<T##n>(v[n - 1])
STANDIN_MK(1, class T1, (const T1 &), {STANDIN_TID(1)}, (STANDIN_GET(1)))
STANDIN_MK(2, class T1 STANDIN_C class T2, (const T1 &, const T2 &),
           {STANDIN_TID(1) STANDIN_C STANDIN_TID(2)},
           (STANDIN_GET(1), STANDIN_GET(2)))
STANDIN_MK(3, class T1 STANDIN_C class T2 STANDIN_C class T3,
           (const T1 &, const T2 &, const T3 &),
           {STANDIN_TID(1) STANDIN_C STANDIN_TID(2) STANDIN_C STANDIN_TID(3)},
           (STANDIN_GET(1), STANDIN_GET(2), STANDIN_GET(3)))
STANDIN_MK(4, class T1 STANDIN_C class T2 STANDIN_C class T3 STANDIN_C class T4,
           (const T1 &, const T2 &, const T3 &, const T4 &),
           {STANDIN_TID(1) STANDIN_C STANDIN_TID(2) STANDIN_C STANDIN_TID(
               3) STANDIN_C STANDIN_TID(4)},
           (STANDIN_GET(1), STANDIN_GET(2), STANDIN_GET(3), STANDIN_GET(4)))
STANDIN_MK(5,
           class T1 STANDIN_C class T2 STANDIN_C class T3 STANDIN_C class T4
               STANDIN_C class T5,
           (const T1 &, const T2 &, const T3 &, const T4 &, const T5 &),
           {STANDIN_TID(1) STANDIN_C STANDIN_TID(2) STANDIN_C STANDIN_TID(
               3) STANDIN_C STANDIN_TID(4) STANDIN_C STANDIN_TID(5)},
           (STANDIN_GET(1), STANDIN_GET(2), STANDIN_GET(3), STANDIN_GET(4),
            STANDIN_GET(5)))
/* command that writes into a stream and returns a string */
template <class E>
Command *makeCommandVerbose(E &e, boost::function<void(std::ostream &)> f,
                            const std::string &d) {
  return new FunctionCommand(e, {}, d, [f](const std::vector<Value> &) {
    std::ostringstream o;
    f(o);
    return Value(o.str());
  });
}
template <class E>
Command *makeCommandVerbose(E &e, void (E::*m)(std::ostream &) const,
                            const std::string &d) {
  E *p = &e;
  return new FunctionCommand(e, {}, d, [p, m](const std::vector<Value> &) {
    std::ostringstream o;
    (p->*m)(o);
    return Value(o.str());
  });
}
}  // namespace command

template <class T, class Time>
inline void plug(Signal<T, Time> *a, SignalPtr<T, Time> *b) {
  b->plug(a);
}

/* ------------------------------------------------------- signal helpers */
#define CONSTRUCT_SIGNAL(name, type, signal_type) /* unused */
#define BIND_SIGNAL_TO_FUNCTION(name, IO, type)                             \
  m_##name##S##IO.setFunction(                                              \
      boost::bind(&EntityClassName::name##S##IO##_function, this, _1, _2));
#define DECLARE_SIGNAL(name, IO, type) \
 public:                               \
  ::dynamicgraph::Signal<type, int> m_##name##S##IO
#define CONSTRUCT_SIGNAL_IN(name, type)                                       \
  m_##name##SIN(NULL, getClassName() + "(" + getName() + ")::input(" + #type + \
                          ")::" + #name)
#define DECLARE_SIGNAL_IN(name, type) \
 public:                              \
  ::dynamicgraph::SignalPtr<type, int> m_##name##SIN
#define CONSTRUCT_SIGNAL_OUT(name, type, dep)                               \
  m_##name##SOUT(                                                           \
      boost::bind(&EntityClassName::name##SOUT_function, this, _1, _2), dep, \
      getClassName() + "(" + getName() + ")::output(" + #type + ")::" + #name)
#define DECLARE_SIGNAL_OUT_FUNCTION(name, type) \
 protected:                                     \
  type &name##SOUT_function(type &, int)
#define DECLARE_SIGNAL_OUT(name, type)                          \
 public:                                                        \
  ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SOUT; \
                                                                \
 protected:                                                     \
  type &name##SOUT_function(type &, int)
#define CONSTRUCT_SIGNAL_INNER(name, type, dep)                                \
  m_##name##SINNER(                                                            \
      boost::bind(&EntityClassName::name##SINNER_function, this, _1, _2), dep, \
      getClassName() + "(" + getName() + ")::inner(" + #type + ")::" + #name)
#define DECLARE_SIGNAL_INNER_FUNCTION(name, type) \
 protected:                                       \
  type &name##SINNER_function(type &, int)
#define DECLARE_SIGNAL_INNER(name, type)                           \
 public:                                                           \
  ::dynamicgraph::SignalTimeDependent<type, int> m_##name##SINNER; \
                                                                   \
 protected:                                                        \
  type &name##SINNER_function(type &, int)
#define DEFINE_SIGNAL_OUT_FUNCTION(name, type) \
  type &EntityClassName::name##SOUT_function(type &s, int iter)
#define DEFINE_SIGNAL_INNER_FUNCTION(name, type) \
  type &EntityClassName::name##SINNER_function(type &s, int iter)

template <class EntityType>
class EntityHelper {
 public:
  typedef EntityType EntityClassName;
};

}  // namespace dynamicgraph

#endif
