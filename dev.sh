#!/bin/bash
# developer build of the driver: dev.sh [repo] [outdir]
R=${1:-/repo}; O=${2:-/tmp/dev}; mkdir -p $O; cd $O
F="-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"
I="-I$R -I$R/src -I$R/lib/EmbedDB-Utility -I$R/lib/Desktop-File-Interface -I/verif/harness -I/verif/harness/fakes"
pids=()
K="-I/verif/harness/fakes -I$R -I$R/src"; ren() { for x in FILE_READ FILE_WRITE FILE_ERASE FILE_CLOSE FILE_FLUSH FILE_OPEN MOCK_FILE_ERASE; do echo -D$x=$1_$x; done; }
OC="objcopy --redefine-sym malloc=vp_malloc --redefine-sym free=vp_free --redefine-sym calloc=vp_calloc --redefine-sym realloc=vp_realloc"
( clang $F -w $K $(ren desk) -c $R/lib/Desktop-File-Interface/desktopFileInterface.c -o f_desk.o && $OC f_desk.o ) & pids+=($!)
( clang $F -w $K -DARDUINO=100 -I$R/lib/SD-Wrapper $(ren sdi) -c $R/lib/SD-File-Interface/SDFileInterface.c -o f_sd.o && $OC f_sd.o ) & pids+=($!)
( clang $F -w $K -I$R/lib/Dataflash-Wrapper -c $R/lib/Dataflash-File-Interface/dataflashFileInterface.c -o f_df.o && $OC f_df.o ) & pids+=($!)
clang++ $F -w $K -DARDUINO=100 -I$R/lib/SD-Wrapper -c $R/lib/SD-Wrapper/sdcard_c_iface.cpp -o f_sdw.o & pids+=($!)
for s in src/embedDB/embedDB.c src/spline/spline.c src/query-interface/advancedQueries.c src/query-interface/schema.c lib/EmbedDB-Utility/embedDBUtility.c; do
 ( clang $F -w $I -c $R/$s -o sut_$(basename $s .c).o && objcopy --redefine-sym malloc=vp_malloc --redefine-sym free=vp_free --redefine-sym calloc=vp_calloc --redefine-sym realloc=vp_realloc sut_$(basename $s .c).o ) & pids+=($!)
done
for s in /verif/harness/*.cpp; do b=$(basename $s .cpp); if [ ! -f h_$b.o ] || [ -n "$(find /verif/harness -newer h_$b.o -name '*.h')" ] || [ $s -nt h_$b.o ]; then clang++ -std=c++17 $F -w $I -c $s -o h_$b.o & pids+=($!); fi; done
( clang $F -w $I -c /verif/harness/example.c -o h_example_c.o && $OC h_example_c.o ) & pids+=($!)
for p in "${pids[@]}"; do wait $p || exit 1; done
clang++ $F sut_*.o f_*.o h_*.o -o drv -lm -lpthread
