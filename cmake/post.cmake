# Runs at the end of /repo/CMakeLists.txt: the shims this sandbox needs (no casarest), then our own targets.
get_target_property(_src meqnodes SOURCES)
list(REMOVE_ITEM _src src/UVBrick.cc)
set_property(TARGET meqnodes PROPERTY SOURCES ${_src})
target_sources(meqnodes PRIVATE ${VF_CMAKE}/uvbrick_absent.c)
set_property(SOURCE ${CMAKE_SOURCE_DIR}/MeqNodes/src/CasaParmTable.cc TARGET_DIRECTORY meqnodes
  APPEND PROPERTY COMPILE_OPTIONS -UIMPLICIT_CTDS_32BIT -include ${VF_CMAKE}/rownr.h)
set_property(TARGET wsrt_j2convert PROPERTY EXCLUDE_FROM_ALL TRUE)
include(${VF_CMAKE}/targets.cmake)
