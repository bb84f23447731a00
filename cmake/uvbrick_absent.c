/* MeqNodes/src/UVBrick.cc needs casarest, which apt does not have, so it is not compiled.
   MeqNodes/src/AID-MeqNodes-Registry.cc still refers to its constructor (and only to that). */
#include <stdio.h>
#include <stdlib.h>
void _ZN3Meq7UVBrickC1Ev (void *self)
{
  (void)self;
  fputs("MeqUVBrick is not available in this build: casarest is missing\n",stderr);
  abort();
}
