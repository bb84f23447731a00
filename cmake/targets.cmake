# The harnesses of /verif, built against /repo's libraries.
include_directories(BEFORE ${CMAKE_BINARY_DIR}/MeqServer)
include_directories(${BUILD_INCLUDE_DIR} ${CASACORE_INCLUDE_DIR}/casacore
    ${PYTHON_NUMPY_INCLUDE_DIR} ${PYTHON_INCLUDE_PATH})
set(VF_LIBS meqserver-lib apputils appagent meqmpi meqnodes meq viscube octopython octopussy dmi timbase
    ${CASACORE_LIBRARIES} ${PYTHON_LIBRARIES} ${CPP_PLATFORM_LIBS})
function(vf_exe name)
  add_executable(${name} ${ARGN})
  target_link_libraries(${name} -Wl,--no-as-needed ${VF_LIBS})
  target_compile_options(${name} PRIVATE -fpermissive)
  set_target_properties(${name} PROPERTIES RUNTIME_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/vf)
endfunction()
add_library(vdrv SHARED ${VF_SRC}/vdrv.cc)
target_link_libraries(vdrv -Wl,--no-as-needed ${VF_LIBS})
set_target_properties(vdrv PROPERTIES PREFIX "" LIBRARY_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/vf)
vf_exe(octodrv ${VF_SRC}/octodrv.cc)
add_library(msdrv SHARED ${VF_SRC}/msdrv.cc)
target_link_libraries(msdrv -Wl,--no-as-needed ${VF_LIBS})
target_compile_options(msdrv PRIVATE -fno-sanitize=undefined)
set_target_properties(msdrv PROPERTIES PREFIX "" LIBRARY_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/vf)
add_library(asanfix SHARED ${VF_SRC}/asanfix.c)
target_compile_options(asanfix PRIVATE -fno-sanitize=all)
target_link_options(asanfix PRIVATE -fno-sanitize=all)
target_link_libraries(asanfix dl)
set_target_properties(asanfix PROPERTIES PREFIX "" LIBRARY_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/vf)
