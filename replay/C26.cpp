// replay driver for C26: the drivers of the other properties under the sanitizers and memcheck, their
// functional verdicts ignored
// FLAGS: -DRP_SAFETY_ONLY -fsanitize=undefined,address -fno-sanitize=vptr -fno-sanitize-recover=undefined
// VARIANT: -DDRV=<C01.cpp> -DW128H=<samples/sfmtdc/w128.hpp>
// VARIANT: -DDRV=<C02.cpp> 
// VARIANT: -DDRV=<C03.cpp> 
// VARIANT: -DDRV=<C04.cpp> 
// VARIANT: -DDRV=<C08.cpp> -DU=uint64_t
// VARIANT: -DDRV=<C09.cpp> 
// VARIANT: -DDRV=<C10.cpp> 
// VARIANT: -DDRV=<C12.cpp> -DU=uint32_t
// VARIANT: -DDRV=<C13.cpp> -DU=uint32_t
// VARIANT: -DDRV=<C14.cpp> -DU=uint64_t
// VARIANT: -DDRV=<C15.cpp> -DU=uint32_t
// VARIANT: -DDRV=<C16.cpp> -DKIND=1
// VARIANT: -DDRV=<C16.cpp> -DKIND=4
// VARIANT: -DDRV=<C17.cpp> -DU=uint32_t -DINST=32,1,23,6,false -DNP=1 -DTRY=23 -DSTEP=6 -DLSB=0
// VARIANT: -DDRV=<C17.cpp> -DU=uint64_t -DINST=64,2,63,6,false -DNP=2 -DTRY=63 -DSTEP=6 -DLSB=0
// VARIANT: -DDRV=<C18.cpp> -DU=uint32_t -DNPAR=2
// VARIANT: -DDRV=<C18.cpp> -DU=uint64_t -DNPAR=7
// VARIANT: -DDRV=<C19.cpp> -DUW=32
// VARIANT: -DDRV=<C19.cpp> -DUW=64
// VARIANT: -DDRV=<C22.cpp> -DU=uint32_t
// VARIANT: -DDRV=<C24.cpp> 
// VARIANT: -DDRV=<C25.cpp> -fno-operator-names
// VARIANT: @valgrind -DDRV=<C02.cpp> 
// VARIANT: @valgrind -DDRV=<C03.cpp> 
// VARIANT: @valgrind -DDRV=<C14.cpp> -DU=uint64_t
// VARIANT: @valgrind -DDRV=<C15.cpp> -DU=uint32_t
// VARIANT: @valgrind -DDRV=<C16.cpp> -DKIND=1
// VARIANT: @valgrind -DDRV=<C17.cpp> -DU=uint32_t -DINST=32,4,9,5,true -DNP=4 -DTRY=9 -DSTEP=5 -DLSB=1
// VARIANT: @valgrind -DDRV=<C18.cpp> -DU=uint32_t -DNPAR=2
// VARIANT: @valgrind -DDRV=<C19.cpp> -DUW=64
// VARIANT: @valgrind -DDRV=<C13.cpp> -DU=uint32_t
// VARIANT: @valgrind -DDRV=<C25.cpp> -DVG -fno-operator-names
#include DRV
