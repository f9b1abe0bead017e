add_compile_definitions(A B)
add_compile_options(-Wall)
add_custom_command(OUTPUT a COMMAND b COMMENT "c")
add_custom_command(OUTPUT a b COMMAND c ARGS d COMMAND e MAIN_DEPENDENCY f DEPENDS g h BYPRODUCTS i IMPLICIT_DEPENDS C j WORKING_DIRECTORY k COMMENT "l" DEPFILE m JOB_POOL n VERBATIM APPEND)
add_custom_command(TARGET a POST_BUILD COMMAND b c COMMAND d BYPRODUCTS e WORKING_DIRECTORY f COMMENT "g" VERBATIM USES_TERMINAL)
add_custom_target(a COMMENT "b")
add_custom_target(a ALL b c COMMAND d DEPENDS e f BYPRODUCTS g WORKING_DIRECTORY h COMMENT "i" JOB_POOL j VERBATIM USES_TERMINAL SOURCES k l)
add_definitions(-DA)
add_dependencies(a b c)
add_executable(a b.c c.c)
add_executable(a WIN32 MACOSX_BUNDLE EXCLUDE_FROM_ALL b.c)
add_executable(a IMPORTED GLOBAL)
add_executable(a ALIAS b)
add_library(a b.c)
add_library(a STATIC EXCLUDE_FROM_ALL b.c)
add_library(a OBJECT b.c)
add_library(a INTERFACE)
add_library(a INTERFACE IMPORTED GLOBAL)
add_library(a SHARED IMPORTED)
add_library(a ALIAS b)
add_link_options(-a)
add_subdirectory(a)
add_subdirectory(a b EXCLUDE_FROM_ALL)
add_test(NAME a COMMAND b c CONFIGURATIONS d WORKING_DIRECTORY e)
add_test(a b c)
aux_source_directory(a b)
build_command(VAR)
build_command(VAR CONFIGURATION a TARGET b PROJECT_NAME c)
cmake_host_system_information(RESULT a QUERY b)
cmake_minimum_required(VERSION 3.5)
cmake_minimum_required(VERSION 3.5...3.20 FATAL_ERROR)
cmake_parse_arguments(a "b" "c" "d" ${ARGN})
cmake_parse_arguments(PARSE_ARGV 1 a "b" "c" "d")
cmake_policy(VERSION 3.5)
cmake_policy(SET CMP0001 NEW)
cmake_policy(GET CMP0001 VAR)
cmake_policy(PUSH)
cmake_policy(POP)
configure_file(a b)
configure_file(a b COPYONLY)
configure_file(a b ESCAPE_QUOTES @ONLY NEWLINE_STYLE LF)
create_test_sourcelist(a b c d)
create_test_sourcelist(a b c EXTRA_INCLUDE d FUNCTION e)
define_property(GLOBAL PROPERTY a INHERITED BRIEF_DOCS "b" FULL_DOCS "c")
enable_language(C)
enable_language(C CXX OPTIONAL)
enable_testing()
execute_process(COMMAND a b COMMAND c WORKING_DIRECTORY d TIMEOUT 1 RESULT_VARIABLE e OUTPUT_VARIABLE f ERROR_VARIABLE g OUTPUT_QUIET ERROR_QUIET)
export(TARGETS a NAMESPACE b FILE c)
export(EXPORT a NAMESPACE b FILE c)
export(PACKAGE a)
file(READ a VAR)
file(READ a VAR OFFSET 1 LIMIT 2 HEX)
file(STRINGS a VAR)
file(STRINGS a VAR LENGTH_MAXIMUM 1 NEWLINE_CONSUME REGEX b)
file(MD5 a VAR)
file(SHA256 a VAR)
file(TIMESTAMP a VAR)
file(TIMESTAMP a VAR "b" UTC)
file(WRITE a "b")
file(APPEND a "b" "c")
file(TOUCH a b)
file(TOUCH_NOCREATE a)
file(GENERATE OUTPUT a INPUT b)
file(GENERATE OUTPUT a CONTENT "b" CONDITION c)
file(GLOB VAR a b)
file(GLOB VAR LIST_DIRECTORIES true RELATIVE a CONFIGURE_DEPENDS b)
file(GLOB_RECURSE VAR FOLLOW_SYMLINKS a)
file(RENAME a b)
file(REMOVE a)
file(REMOVE_RECURSE a b)
file(MAKE_DIRECTORY a b)
file(COPY a b DESTINATION c)
file(COPY a DESTINATION b FILES_MATCHING PATTERN "c" EXCLUDE PATTERN "d" REGEX "e" PERMISSIONS OWNER_READ)
file(INSTALL a DESTINATION b)
file(SIZE a VAR)
file(READ_SYMLINK a VAR)
file(CREATE_LINK a b)
file(CREATE_LINK a b RESULT c COPY_ON_ERROR SYMBOLIC)
file(RELATIVE_PATH VAR a b)
file(TO_CMAKE_PATH "a" VAR)
file(TO_NATIVE_PATH "a" VAR)
file(DOWNLOAD a b)
file(DOWNLOAD a b INACTIVITY_TIMEOUT 1 LOG c SHOW_PROGRESS STATUS d TIMEOUT 2 EXPECTED_HASH e)
file(UPLOAD a b)
file(LOCK a)
file(LOCK a DIRECTORY RELEASE GUARD FUNCTION RESULT_VARIABLE b TIMEOUT 1)
find_file(VAR a)
find_file(VAR NAMES a b HINTS c PATHS d PATH_SUFFIXES e DOC "f" NO_DEFAULT_PATH)
find_library(VAR a b)
find_library(VAR NAMES a NAMES_PER_DIR PATHS c)
find_package(a)
find_package(a 1.0 EXACT QUIET REQUIRED COMPONENTS b c OPTIONAL_COMPONENTS d)
find_package(a CONFIG NAMES b PATHS c)
find_path(VAR a)
find_program(VAR a)
fltk_wrap_ui(a b c)
get_cmake_property(VAR a)
get_directory_property(VAR a)
get_directory_property(VAR DIRECTORY a b)
get_directory_property(VAR DEFINITION a)
get_filename_component(VAR a NAME)
get_filename_component(VAR a ABSOLUTE BASE_DIR b CACHE)
get_filename_component(VAR a PROGRAM PROGRAM_ARGS b CACHE)
get_property(VAR GLOBAL PROPERTY a)
get_property(VAR DIRECTORY a PROPERTY b SET)
get_property(VAR TARGET a PROPERTY b DEFINED)
get_source_file_property(VAR a b)
get_target_property(VAR a b)
get_test_property(a b VAR)
include(a)
include(a OPTIONAL RESULT_VARIABLE b NO_POLICY_SCOPE)
include_directories(a)
include_directories(BEFORE SYSTEM a b)
include_external_msproject(a b)
include_external_msproject(a b TYPE c GUID d PLATFORM e f)
include_guard()
include_guard(GLOBAL)
include_regular_expression(a)
include_regular_expression(a b)
install(TARGETS a DESTINATION b)
install(TARGETS a b EXPORT c RUNTIME DESTINATION d COMPONENT e LIBRARY DESTINATION f NAMELINK_ONLY ARCHIVE DESTINATION g)
install(FILES a b DESTINATION c PERMISSIONS OWNER_READ CONFIGURATIONS Debug COMPONENT d RENAME e OPTIONAL)
install(PROGRAMS a DESTINATION b)
install(DIRECTORY a DESTINATION b)
install(DIRECTORY a DESTINATION b FILES_MATCHING PATTERN "c" PATTERN "d" EXCLUDE)
install(SCRIPT a)
install(CODE "a")
install(SCRIPT a CODE "b")
install(EXPORT a DESTINATION b)
install(EXPORT a DESTINATION b NAMESPACE c FILE d)
install_files(a b)
install_files(a .x b c)
install_files(a FILES b c)
install_programs(a b c)
install_programs(a FILES b)
install_programs(a b)
install_targets(a b c)
install_targets(a RUNTIME_DIRECTORY b c)
link_directories(a)
link_directories(AFTER a b)
link_libraries(a debug b optimized c)
list(LENGTH a VAR)
list(GET a 0 VAR)
list(GET a 0 1 VAR)
list(JOIN a ";" VAR)
list(SUBLIST a 0 1 VAR)
list(FIND a b VAR)
list(APPEND a)
list(APPEND a b c)
list(FILTER a INCLUDE REGEX b)
list(FILTER a EXCLUDE REGEX b)
list(INSERT a 0 b)
list(POP_BACK a)
list(POP_BACK a VAR)
list(POP_FRONT a VAR b)
list(PREPEND a b)
list(REMOVE_ITEM a b c)
list(REMOVE_AT a 0)
list(REMOVE_DUPLICATES a)
list(TRANSFORM a APPEND b)
list(TRANSFORM a TOUPPER)
list(TRANSFORM a STRIP OUTPUT_VARIABLE b)
list(TRANSFORM a REPLACE b c)
list(TRANSFORM a TOLOWER AT 0 1)
list(TRANSFORM a TOLOWER FOR 0 5 1)
list(TRANSFORM a TOLOWER REGEX b)
list(REVERSE a)
list(SORT a)
list(SORT a COMPARE STRING CASE SENSITIVE ORDER ASCENDING)
load_cache(a READ_WITH_PREFIX b c)
load_cache(a EXCLUDE b INCLUDE_INTERNALS c)
load_command(a b c)
make_directory(a)
mark_as_advanced(a)
mark_as_advanced(CLEAR a b)
mark_as_advanced(FORCE a)
math(EXPR VAR "1+1")
math(EXPR VAR "1+1" OUTPUT_FORMAT HEXADECIMAL)
message("a")
message(STATUS "a" "b")
option(A "b")
option(A "b" ON)
project(a)
project(a C CXX)
project(a VERSION 1.0 DESCRIPTION "b" HOMEPAGE_URL "c" LANGUAGES C)
qt_wrap_cpp(a b c)
qt_wrap_ui(a b c d)
remove(a b)
remove_definitions(-DA)
return()
separate_arguments(a)
separate_arguments(a UNIX_COMMAND "b")
separate_arguments(a WINDOWS_COMMAND "b")
separate_arguments(a NATIVE_COMMAND "b")
set(VAR)
set(VAR a)
set(VAR a b c)
set(VAR a PARENT_SCOPE)
set(VAR a CACHE STRING "b")
set(VAR a CACHE INTERNAL "b" FORCE)
set(ENV{a} b)
set_directory_properties(PROPERTIES a b)
set_directory_properties(PROPERTIES a b c d)
set_property(GLOBAL PROPERTY a b)
set_property(DIRECTORY a PROPERTY b c d)
set_property(TARGET a b APPEND PROPERTY c d)
set_property(SOURCE a APPEND_STRING PROPERTY b c)
set_property(CACHE a PROPERTY STRINGS b c)
set_property(TEST a PROPERTY b)
set_source_files_properties(a PROPERTIES b c)
set_source_files_properties(a b PROPERTIES c d e f)
set_target_properties(a b PROPERTIES c d)
set_tests_properties(a PROPERTIES b c)
site_name(VAR)
source_group(a)
source_group(a FILES b c)
source_group(a REGULAR_EXPRESSION b)
source_group(a b)
source_group(TREE a)
source_group(TREE a PREFIX b FILES c d)
string(FIND a b VAR)
string(FIND a b VAR REVERSE)
string(REPLACE a b VAR c)
string(REGEX MATCH a VAR b)
string(REGEX MATCHALL a VAR b)
string(REGEX REPLACE a b VAR c)
string(APPEND VAR a)
string(PREPEND VAR a b)
string(CONCAT VAR a b)
string(JOIN ";" VAR a b)
string(TOLOWER a VAR)
string(TOUPPER a VAR)
string(LENGTH a VAR)
string(SUBSTRING a 0 1 VAR)
string(STRIP a VAR)
string(GENEX_STRIP a VAR)
string(REPEAT a 3 VAR)
string(COMPARE EQUAL a b VAR)
string(SHA1 VAR a)
string(ASCII 65 66 VAR)
string(CONFIGURE a VAR)
string(CONFIGURE a VAR @ONLY ESCAPE_QUOTES)
string(MAKE_C_IDENTIFIER a VAR)
string(RANDOM VAR)
string(RANDOM LENGTH 5 ALPHABET abc RANDOM_SEED 1 VAR)
string(TIMESTAMP VAR)
string(TIMESTAMP VAR "a" UTC)
string(UUID VAR NAMESPACE a NAME b TYPE MD5)
subdirs(a b)
target_compile_definitions(a PRIVATE b c PUBLIC d INTERFACE e)
target_compile_features(a PRIVATE b)
target_compile_options(a BEFORE PRIVATE b)
target_include_directories(a SYSTEM PUBLIC b INTERFACE c)
target_link_directories(a PRIVATE b)
target_link_libraries(a b c)
target_link_libraries(a PRIVATE b PUBLIC c)
target_link_libraries(a debug b optimized c)
target_link_options(a PRIVATE b)
target_sources(a PRIVATE b.c PUBLIC c.c)
try_compile(VAR a b c)
try_compile(VAR a SOURCES b c CMAKE_FLAGS d COMPILE_DEFINITIONS e LINK_LIBRARIES f OUTPUT_VARIABLE g COPY_FILE h COPY_FILE_ERROR i)
try_run(VAR a b c)
try_run(VAR a b c COMPILE_OUTPUT_VARIABLE d RUN_OUTPUT_VARIABLE e ARGS f g)
unset(VAR)
unset(VAR CACHE)
unset(VAR PARENT_SCOPE)
use_mangled_mesa(a b)
utility_source(a b c d e)
variable_requires(A B C D)
variable_watch(A)
variable_watch(A b)
write_file(a "b")
write_file(a "b" APPEND)
find_package_handle_standard_args(a DEFAULT_MSG B_C)
find_package_handle_standard_args(a REQUIRED_VARS B_C D_E VERSION_VAR F)
find_package_handle_standard_args(a FOUND_VAR b REQUIRED_VARS C CONFIG_MODE HANDLE_COMPONENTS FAIL_MESSAGE "d")
find_package_message(a "b" "c")
check_c_source_compiles("a" VAR)
check_c_compiler_flag(-a VAR)
check_cxx_source_compiles("a" VAR)
check_function_exists(a VAR)
check_include_file(a VAR)
check_include_file_cxx(a VAR)
check_include_files("a;b" VAR)
check_library_exists(a b "" VAR)
check_symbol_exists(a b VAR)
check_cxx_symbol_exists(a b VAR)
check_type_size(a VAR)
check_struct_has_member(a b c VAR)
check_variable_exists(a VAR)
cmake_dependent_option(A "b" ON "C;D" OFF)
cmake_print_variables(a b)
cmake_print_properties(TARGETS a PROPERTIES b c)
cmake_push_check_state()
cmake_push_check_state(RESET)
cmake_pop_check_state()
configure_package_config_file(a b INSTALL_DESTINATION c PATH_VARS d NO_SET_AND_CHECK_MACRO)
write_basic_package_version_file(a VERSION 1.0 COMPATIBILITY SameMajorVersion)
feature_summary(WHAT ALL)
set_package_properties(a PROPERTIES URL "b" DESCRIPTION "c" TYPE REQUIRED PURPOSE "d")
add_feature_info(a b "c")
generate_export_header(a)
generate_export_header(a BASE_NAME b EXPORT_FILE_NAME c)
gtest_discover_tests(a)
gtest_discover_tests(a EXTRA_ARGS b WORKING_DIRECTORY c TEST_PREFIX d)
gtest_add_tests(TARGET a SOURCES b)
processorcount(VAR)
pkg_check_modules(A REQUIRED b>=1.0)
pkg_search_module(A b c)
externalproject_add(a URL b)
externalproject_add(a GIT_REPOSITORY b GIT_TAG c PREFIX d CMAKE_ARGS -De=f BUILD_COMMAND "" INSTALL_COMMAND "" DEPENDS g)
externalproject_add_step(a b COMMAND c DEPENDEES d DEPENDERS e COMMENT "f")
externalproject_get_property(a b c)
fetchcontent_declare(a GIT_REPOSITORY b GIT_TAG c)
fetchcontent_makeavailable(a b)
fetchcontent_getproperties(a)
fetchcontent_populate(a)
include_guard(DIRECTORY)
ctest_build()
ctest_build(BUILD a APPEND CONFIGURATION b RETURN_VALUE c)
ctest_configure(BUILD a SOURCE b)
ctest_coverage(BUILD a LABELS b)
ctest_memcheck(PARALLEL_LEVEL 2)
ctest_read_custom_files(a b)
ctest_run_script(a NEW_PROCESS RETURN_VALUE b)
ctest_sleep(1)
ctest_sleep(1 2 3)
ctest_start(Nightly)
ctest_start(Nightly a b TRACK c APPEND)
ctest_submit()
ctest_submit(PARTS Start RETRY_COUNT 1)
ctest_test()
ctest_test(START 1 END 5 STRIDE 2 EXCLUDE a INCLUDE b RETURN_VALUE c)
ctest_update(SOURCE a)
ctest_upload(FILES a b)
cpack_add_component(a DISPLAY_NAME "b" DESCRIPTION "c" HIDDEN REQUIRED GROUP d DEPENDS e f)
cpack_add_component_group(a DISPLAY_NAME "b" EXPANDED)
cpack_add_install_type(a DISPLAY_NAME "b")
foreach(a)
foreach(a b c)
foreach(a RANGE 5)
foreach(a RANGE 0 5)
foreach(a RANGE 0 5 2)
foreach(a IN LISTS b)
foreach(a IN ITEMS b c)
foreach(a IN LISTS b ITEMS c)
while(a)
while(NOT a AND b)
if(a AND b)
if(NOT a)
if(TARGET a)
if(EXISTS "a" OR IS_DIRECTORY b)
if(a STREQUAL "b")
if(a VERSION_LESS 1.0)
if(a MATCHES "b" AND c IN_LIST d)
function(a)
function(a bb cc)
macro(A bb)
macro(A)
