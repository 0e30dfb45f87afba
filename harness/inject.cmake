# Read right after project(MOCC): use the system libraries exactly as the
# project's own build here does, then add the harness programs at the end.
include(/opt/vp/cmake/system_libs.cmake)
cmake_language(DEFER DIRECTORY ${CMAKE_SOURCE_DIR} CALL include
    ${VERIF_HARNESS}/targets.cmake)
