// msdrv: creating and dumping measurement sets with casacore, for the checks of visibility I/O.
#include <Python.h>
#include <OCTOPython/OctoPython.h>
#include <DMI/Exception.h>
#include <stdexcept>
#include <casacore/ms/MeasurementSets.h>
#include <casacore/ms/MeasurementSets/MSColumns.h>
#include <casacore/tables/Tables.h>
#include <casacore/measures/Measures/MDirection.h>
using namespace OctoPython;
static PyObject *Err;
#define Need(cond,msg) { if( cond ) throw std::runtime_error(msg); }
#define CATCH catch( std::exception &exc ) { PyErr_SetString(Err,exc.what()); return NULL; }
namespace {
namespace cc = casacore;
struct Buf
{
  Py_buffer b; bool ok;
  Buf (PyObject *o) : ok(false)
  { if( PyObject_GetBuffer(o,&b,PyBUF_C_CONTIGUOUS|PyBUF_FORMAT) ) throw std::runtime_error("not an array"); ok = true; }
  ~Buf () { if( ok ) PyBuffer_Release(&b); }
  template<class T> const T * as () const { Need(size_t(b.itemsize) != sizeof(T),"wrong item size"); return static_cast<const T*>(b.buf); }
  size_t size () const { return b.len/b.itemsize; }
  cc::IPosition shape () const { cc::IPosition s(b.ndim); for( int i=0; i<b.ndim; i++ ) s(b.ndim-1-i) = b.shape[i]; return s; }
};
PyObject * item (PyObject *d,const char *k) { PyObject *o = PyDict_GetItemString(d,k); Need(!o,std::string("missing ")+k); return o; }
template<class T> cc::Array<T> arr (PyObject *o) { Buf b(o); return cc::Array<T>(b.shape(),b.as<T>()); }
template<class T> cc::Vector<T> vec (PyObject *d,const char *k) { return cc::Vector<T>(arr<T>(item(d,k))); }
template<class T> void fill (cc::Table &t,const std::string &col,PyObject *list)
{
  cc::ArrayColumn<T> c(t,col);
  for( int i=0; i<PyList_Size(list); i++ )
  {
    PyObject *o = PyList_GetItem(list,i);
    if( o != Py_None ) c.put(i,arr<T>(o));
  }
}
template<class T> void fills (cc::Table &t,const std::string &col,PyObject *d,const char *k)
{ cc::ScalarColumn<T>(t,col).putColumn(vec<T>(d,k)); }
}
static PyObject *py_ms_create (PyObject *,PyObject *args)
{
  const char *path; PyObject *d;
  if( !PyArg_ParseTuple(args,"sO!",&path,&PyDict_Type,&d) ) return NULL;
  try
  {
    using namespace casacore;
    int nant = PyLong_AsLong(item(d,"nant")), nfield = PyLong_AsLong(item(d,"nfield"));
    int fixed = PyLong_AsLong(item(d,"fixed")), tiled = PyLong_AsLong(item(d,"tiled"));
    PyObject *cols = item(d,"complex"), *floats = item(d,"float"), *ints = item(d,"int"), *bools = item(d,"bool");
    IPosition cell = fixed ? Buf(PyList_GetItem(PyDict_GetItemString(cols,"DATA"),0)).shape() : IPosition();
    TableDesc td = MS::requiredTableDesc();
    // the standard description has FLAG as a variable-shape column
    PyObject *k,*v; Py_ssize_t pos = 0;
    while( PyDict_Next(cols,&pos,&k,&v) )
      if( fixed ) td.addColumn(ArrayColumnDesc<Complex>(PyUnicode_AsUTF8(k),"",cell,tiled ? ColumnDesc::FixedShape : (ColumnDesc::Direct|ColumnDesc::FixedShape)));
      else td.addColumn(ArrayColumnDesc<Complex>(PyUnicode_AsUTF8(k),"",2));
    for( pos=0; PyDict_Next(floats,&pos,&k,&v); )
      td.addColumn(ArrayColumnDesc<Float>(PyUnicode_AsUTF8(k),"",2));
    for( pos=0; PyDict_Next(ints,&pos,&k,&v); )
      td.addColumn(ArrayColumnDesc<Int>(PyUnicode_AsUTF8(k),"",2));
    if( PyDict_GetItemString(d,"BITFLAG_ROW") )
      td.addColumn(ScalarColumnDesc<Int>("BITFLAG_ROW"));
    SetupNewTable setup(path,td,Table::New);
    StandardStMan ssm("ssm",32768); setup.bindAll(ssm);
    if( fixed && tiled )
    {
      TiledColumnStMan tsm("TiledData",IPosition(3,cell(0),std::max(1,int(cell(1)/2)),3));
      setup.bindColumn("DATA",tsm);
    }
    MeasurementSet ms(setup,0);
    ms.createDefaultSubtables(Table::New);
    // subtables
    {
      MSAntenna t(ms.antenna()); t.addRow(nant);
      ArrayColumn<Double> p(t,"POSITION");
      for( int i=0; i<nant; i++ ) { cc::Vector<Double> x(3); x(0)=3.8e6+37*i; x(1)=4.4e5-11*i; x(2)=5.06e6+i; p.put(i,x); }
    }
    {
      MSField t(ms.field()); t.addRow(nfield);
      MSFieldColumns c(t);
      for( int i=0; i<nfield; i++ )
      {
        c.numPoly().put(i,0);
        cc::Vector<MDirection> dir(1); dir(0) = MDirection(Quantity(10+i,"deg"),Quantity(-30+i,"deg"),MDirection::J2000);
        c.phaseDirMeasCol().put(i,dir);
      }
    }
    PyObject *f = item(d,"freqs"), *w = item(d,"widths"), *pl = item(d,"corrs");
    {
      MSSpectralWindow t(ms.spectralWindow()); t.addRow(PyList_Size(f));
      ArrayColumn<Double> cf(t,"CHAN_FREQ"), cw(t,"CHAN_WIDTH");
      for( int i=0; i<PyList_Size(f); i++ )
      {
        cf.put(i,arr<Double>(PyList_GetItem(f,i))); cw.put(i,arr<Double>(PyList_GetItem(w,i)));
        ScalarColumn<Int>(t,"NUM_CHAN").put(i,cf.shape(i)(0));
      }
    }
    {
      MSPolarization t(ms.polarization()); t.addRow(PyList_Size(pl));
      for( int i=0; i<PyList_Size(pl); i++ )
      {
        cc::Array<Int> a = arr<Int>(PyList_GetItem(pl,i));
        ArrayColumn<Int>(t,"CORR_TYPE").put(i,a); ScalarColumn<Int>(t,"NUM_CORR").put(i,a.nelements());
      }
    }
    {
      cc::Vector<Int> s = vec<Int>(d,"dd_spw"), p = vec<Int>(d,"dd_pol");
      MSDataDescription t(ms.dataDescription()); t.addRow(s.nelements());
      ScalarColumn<Int>(t,"SPECTRAL_WINDOW_ID").putColumn(s); ScalarColumn<Int>(t,"POLARIZATION_ID").putColumn(p);
    }
    // main table
    ms.addRow(vec<Double>(d,"TIME").nelements());
    const char *dc[] = { "TIME","EXPOSURE" };
    for( int i=0; i<2; i++ ) fills<Double>(ms,dc[i],d,dc[i]);
    const char *ic[] = { "ANTENNA1","ANTENNA2","FIELD_ID","DATA_DESC_ID" };
    for( int i=0; i<4; i++ ) fills<Int>(ms,ic[i],d,ic[i]);
    fills<Bool>(ms,"FLAG_ROW",d,"FLAG_ROW");
    if( PyDict_GetItemString(d,"BITFLAG_ROW") ) fills<Int>(ms,"BITFLAG_ROW",d,"BITFLAG_ROW");
    ArrayColumn<Double>(ms,"UVW").putColumn(arr<Double>(item(d,"UVW")));
    for( pos=0; PyDict_Next(cols,&pos,&k,&v); ) fill<Complex>(ms,PyUnicode_AsUTF8(k),v);
    for( pos=0; PyDict_Next(floats,&pos,&k,&v); ) fill<Float>(ms,PyUnicode_AsUTF8(k),v);
    for( pos=0; PyDict_Next(ints,&pos,&k,&v); ) fill<Int>(ms,PyUnicode_AsUTF8(k),v);
    for( pos=0; PyDict_Next(bools,&pos,&k,&v); ) fill<Bool>(ms,PyUnicode_AsUTF8(k),v);
    ms.flush(True);
  } CATCH
  Py_RETURN_NONE;
}
namespace {
template<class T> PyObject * packed (const cc::Array<T> &a)
{
  bool del; const T *p = a.getStorage(del);
  PyObjectRef shp = PyList_New(0);
  for( int i=a.ndim()-1; i>=0; i-- ) { PyObjectRef n = PyLong_FromLong(a.shape()(i)); PyList_Append(*shp,*n); }
  PyObjectRef by = PyBytes_FromStringAndSize((const char*)p,a.nelements()*sizeof(T));
  PyObject *r = Py_BuildValue("(OO)",*shp,*by);
  a.freeStorage(p,del);
  return r;
}
template<class T> PyObject * dump (const cc::Table &t,const std::string &name,bool scalar)
{
  if( scalar ) return packed<T>(cc::ScalarColumn<T>(t,name).getColumn());
  PyObjectRef list = PyList_New(0);
  cc::ArrayColumn<T> c(t,name);
  for( cc::uInt i=0; i<t.nrow(); i++ )
  {
    PyObjectRef o;
    if( c.isDefined(i) ) o = packed<T>(c(i)); else { Py_INCREF(Py_None); o = Py_None; }
    PyList_Append(*list,*o);
  }
  return ~list;
}
}
static PyObject *py_ms_read (PyObject *,PyObject *args)
{
  const char *path;
  if( !PyArg_ParseTuple(args,"s",&path) ) return NULL;
  try
  {
    using namespace casacore;
    Table t(path);
    PyObjectRef out = PyDict_New();
    cc::Vector<String> names = t.tableDesc().columnNames();
    for( uInt i=0; i<names.nelements(); i++ )
    {
      const ColumnDesc &cd = t.tableDesc()[names(i)];
      PyObjectRef o; const char *code;
      std::string n(names(i));
      switch( cd.dataType() )
      {
        case TpBool:    o = dump<Bool>(t,n,cd.isScalar()); code = "?"; break;
        case TpInt:     o = dump<Int>(t,n,cd.isScalar()); code = "i4"; break;
        case TpFloat:   o = dump<Float>(t,n,cd.isScalar()); code = "f4"; break;
        case TpDouble:  o = dump<Double>(t,n,cd.isScalar()); code = "f8"; break;
        case TpComplex: o = dump<Complex>(t,n,cd.isScalar()); code = "c8"; break;
        default: continue;
      }
      PyObjectRef e = Py_BuildValue("(sO)",code,*o);
      PyDict_SetItemString(*out,n.c_str(),*e);
    }
    return ~out;
  } CATCH
}

static PyMethodDef methods[] = {
  {"create",py_ms_create,METH_VARARGS,""},{"read",py_ms_read,METH_VARARGS,""},
  {NULL,NULL,0,NULL}
};
static struct PyModuleDef mod = { PyModuleDef_HEAD_INIT,"msdrv","",-1,methods,NULL,NULL,NULL,NULL };
PyMODINIT_FUNC PyInit_msdrv ()
{
  PyObject *m = PyModule_Create(&mod);
  Err = PyErr_NewException("msdrv.Error",NULL,NULL);
  Py_INCREF(Err);
  PyModule_AddObject(m,"Error",Err);
  return m;
}
