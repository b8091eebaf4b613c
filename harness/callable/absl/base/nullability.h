// Stand-in for the header the sandbox's Abseil is too old to have.
#pragma once
#define absl_nonnull
#define absl_nullable
