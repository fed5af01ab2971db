# mk.sh src out backend : quick standalone build against repo
set -e
be=${3:-expat}; case $be in expat) M=ARABICA_USE_EXPAT; L=-lexpat;; libxml2) M=ARABICA_USE_LIBXML2; L="-lxml2"; I=-I/usr/include/libxml2;; xerces) M=ARABICA_USE_XERCES; L=-lxerces-c;; esac
D=/tmp/mk_$be; mkdir -p $D/include/SAX
sed -e "s/#cmakedefine $M\b.*/#define $M/; s/#cmakedefine ARABICA_HAVE_BOOST\b.*/#define ARABICA_HAVE_BOOST/; s/#cmakedefine.*//" ${ARABICA_REPO:-/repo}/include/SAX/ArabicaConfig.hpp.in > $D/include/SAX/ArabicaConfig.hpp
R=${ARABICA_REPO:-/repo}; SRCS=$(python3 -c "
import re;t=open('$R/CMakeLists.txt').read();print(' '.join('$R/'+s for s in re.search(r'set\(SOURCE_FILES(.*?)\)',t,re.S).group(1).split() if s.endswith('.cpp')))")
O=""
for s in $SRCS $1; do o=$D/$(echo $s|tr / _).o; ( if [ ! -f $o ] || [ $s -nt $o ] || [ $s = $1 ]; then g++ -std=c++14 -w -g -O0 -fsanitize=address -I$D/include -I$R/include -I/verif/lib -I/verif/harness $I -DARABICA_NOT_USE_PRAGMA_LINKER_OPTIONS -DMC_NOMAIN -c $s -o $o; fi ) & O="$O $o"; done; wait
g++ -fsanitize=address $O -o $2 $L
