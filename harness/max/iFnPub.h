// Stand-in for the 3ds Max SDK: just what the wrappers of MAXex use, recording what they do.
#pragma once
