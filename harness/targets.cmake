file(GLOB hs "${VERIF_HARNESS}/h_*.cpp")
foreach(f ${hs})
    get_filename_component(n ${f} NAME_WE)
    add_executable(${n} EXCLUDE_FROM_ALL ${f})
    set_target_properties(${n} PROPERTIES
        RUNTIME_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/harness)
    target_include_directories(${n} PRIVATE ${VERIF_HARNESS}/../build/gen ${CMAKE_SOURCE_DIR}/src
        ${CMAKE_SOURCE_DIR}/src/core ${CMAKE_SOURCE_DIR}/src/sweepers
        ${CMAKE_SOURCE_DIR}/src/solvers)
    target_link_libraries(${n} driver auxiliary solvers sweepers mc moc sn cmdo
        core util pugixml ${HDF5_LIBRARIES} ${Blitz_LIBRARY})
    if(n STREQUAL "h_k06")
        target_link_libraries(${n} -Wl,--wrap=_ZN4mocc2mc14ParticlePusher8simulateERKNS0_11FissionBankEd)
    endif()
    if(n STREQUAL "h_e01")
        # the scripted sweeper takes the place of the factory of the library
        target_link_libraries(${n} -Wl,--allow-multiple-definition)
    endif()
endforeach()
# Programs whose threads are scheduled by harness/par (instrumented tree only)
if(VERIF_INST)
    file(GLOB ps "${VERIF_HARNESS}/p_*.cpp")
    add_library(parrt STATIC EXCLUDE_FROM_ALL ${VERIF_HARNESS}/par/runtime.cpp)
    target_compile_options(parrt PRIVATE -fno-sanitize=all -fno-openmp)
    foreach(f ${ps})
        get_filename_component(n ${f} NAME_WE)
        add_executable(${n} EXCLUDE_FROM_ALL ${f})
        set_target_properties(${n} PROPERTIES
            RUNTIME_OUTPUT_DIRECTORY ${CMAKE_BINARY_DIR}/harness)
        target_include_directories(${n} PRIVATE ${VERIF_HARNESS}/../build/gen ${CMAKE_SOURCE_DIR}/src
            ${CMAKE_SOURCE_DIR}/src/core ${CMAKE_SOURCE_DIR}/src/sweepers
            ${CMAKE_SOURCE_DIR}/src/solvers)
        target_link_libraries(${n} parrt -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset
            -Wl,--wrap=_ZN4mocc2mc14ParticlePusher8simulateERKNS0_11FissionBankEd
            driver auxiliary solvers sweepers mc moc sn cmdo
            core util pugixml ${HDF5_LIBRARIES} ${Blitz_LIBRARY} parrt)
    endforeach()
endif()
