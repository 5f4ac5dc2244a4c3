// Stand-in for dynamic-graph-python's embedded interpreter: the same public
// calls over CPython, with a namespace of its own per object.
#ifndef STANDIN_DG_PYTHON_INTERPRETER_HH
#define STANDIN_DG_PYTHON_INTERPRETER_HH
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <iostream>
#include <string>

namespace dynamicgraph {
namespace python {
class Interpreter {
 public:
  Interpreter() {
    if (!Py_IsInitialized()) Py_InitializeEx(0);
    globals_ = PyDict_New();
    PyObject *r = PyRun_String(
        "import io, contextlib, traceback\n"
        "def call(text, g, how):\n"
        "    out, err, res = io.StringIO(), '', ''\n"
        "    with contextlib.redirect_stdout(out):\n"
        "        try:\n"
        "            if how:\n"
        "                exec(compile(open(text).read(), text, 'exec'), g)\n"
        "            else:\n"
        "                try:\n"
        "                    code = compile(text, '<string>', 'eval')\n"
        "                except SyntaxError:\n"
        "                    exec(compile(text, '<string>', 'exec'), g)\n"
        "                else:\n"
        "                    res = str(eval(code, g))\n"
        "        except BaseException:\n"
        "            err = traceback.format_exc()\n"
        "    return res, out.getvalue(), err\n",
        Py_file_input, own(), own());
    if (!r) PyErr_Print();
    Py_XDECREF(r);
    PyDict_SetItemString(globals_, "__builtins__", PyEval_GetBuiltins());
  }
  ~Interpreter() {
    Py_XDECREF(own_);
    Py_XDECREF(globals_);
  }
  Interpreter(const Interpreter &) = delete;
  void python(const std::string &command, std::string &result, std::string &out,
              std::string &err) {
    run(command, false, result, out, err);
  }
  void runPythonFile(std::string filename, std::string &err) {
    std::string r, o;
    run(filename, true, r, o, err);
  }
  void runPythonFile(std::string filename) {
    std::string err;
    runPythonFile(filename, err);
    if (!err.empty()) std::cerr << err << std::endl;
  }

 private:
  PyObject *own() {
    if (!own_) {
      own_ = PyDict_New();
      PyDict_SetItemString(own_, "__builtins__", PyEval_GetBuiltins());
    }
    return own_;
  }
  void run(const std::string &text, bool file, std::string &res,
           std::string &out, std::string &err) {
    PyObject *t = PyObject_CallFunction(PyDict_GetItemString(own(), "call"),
                                        "s#Oi", text.data(),
                                        (Py_ssize_t)text.size(), globals_,
                                        (int)file);
    if (!t) {
      PyErr_Print();
      return;
    }
    auto get = [&](int i) {
      return std::string(PyUnicode_AsUTF8(PyTuple_GetItem(t, i)));
    };
    res = get(0);
    out = get(1);
    err = get(2);
    Py_DECREF(t);
  }
  PyObject *globals_ = nullptr, *own_ = nullptr;
};
}  // namespace python
}  // namespace dynamicgraph
#endif
