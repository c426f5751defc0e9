/* cross compiling against the header files of the host: nothing here */
