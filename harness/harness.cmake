# Harness programs: one executable per NAME.cpp next to this file.
file(GLOB _vp_srcs CONFIGURE_DEPENDS "${CMAKE_CURRENT_LIST_DIR}/*.cpp")
foreach(_src IN LISTS _vp_srcs)
    get_filename_component(_name "${_src}" NAME_WE)
    add_executable(vp_${_name} EXCLUDE_FROM_ALL "${_src}")
    target_include_directories(vp_${_name} PRIVATE
            "${CMAKE_CURRENT_LIST_DIR}"
            "${CMAKE_SOURCE_DIR}/platform/src" "${CMAKE_SOURCE_DIR}/scalars/src" "${CMAKE_SOURCE_DIR}/streams/src")
    target_link_libraries(vp_${_name} PRIVATE
            RoughPy::Streams RoughPy::Algebra RoughPy::Intervals RoughPy::Scalars RoughPy::Platform RoughPy::Core gmp::gmp)
endforeach()
