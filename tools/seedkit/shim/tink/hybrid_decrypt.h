// Tink is not installed; the servers include this header but use no name from it.
#pragma once
