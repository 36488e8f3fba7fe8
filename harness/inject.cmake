# Injected into project(RoughPy) through CMAKE_PROJECT_RoughPy_INCLUDE by lib/build.py:
# the environment's own glue first, then (deferred to the end of the top-level
# CMakeLists.txt) the harness programs of /verif, which link the libraries built here.
include("/opt/vp/cmake/leave-out.cmake")
cmake_language(DEFER DIRECTORY "${CMAKE_SOURCE_DIR}" CALL include "${VP_HARNESS_DIR}/harness.cmake")
