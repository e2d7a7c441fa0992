#pragma once
// analysis stub: the real header only supplies portability shims for builtins
