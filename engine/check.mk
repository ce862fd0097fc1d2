# Builds build/$(ID)/check from the harness and the working tree of $(REPO).
ID ?= C01
REPO ?= /repo
OUT := build/$(ID)
CC := clang
CXX := clang++
SAN := -fsanitize=address -fno-omit-frame-pointer
# $(VARIANT): sse = as on a build machine with SSE4.2, plain = without (two code paths of the request parser)
HARNESS := harness/$(ID).cc
# VX_PREEMPT: the harness is called at every memory access and branch of the library, where it may let another thread run
COV := -fsanitize-coverage=inline-8bit-counters$(shell grep -q VX_PREEMPT $(HARNESS) && echo ,trace-loads,trace-stores)
CFLAGS := -std=gnu2x -g1 -O1 -w $(SAN) $(COV) -I$(REPO)/src
CXXFLAGS := -std=c++20 -g1 -O1 -Wall -Wno-unused-function -Wno-header-guard -Wno-empty-body $(SAN) -Iengine -Iharness -I$(REPO)/src -I$(REPO)/src/picohttpparser
SRCS := $(shell cd $(REPO)/src && find . -name '*.c' | sort)
OBJS := $(patsubst ./%.c,$(OUT)/lib/%.o,$(SRCS))
PLAIN := $(shell grep -q VX_PLAIN_VARIANT $(HARNESS) && echo $(OUT)/plain.o)
SRV := $(shell grep -q VX_SERVER $(HARNESS) && echo $(OUT)/srv.o)

.PHONY: all fresh FORCE
all: $(OUT)/check
$(OUT)/.fresh: FORCE
	@rm -rf $(OUT) && mkdir -p $(OUT) && touch $@

$(OUT)/lib/%.o: $(REPO)/src/%.c $(OUT)/.fresh
	@mkdir -p $(dir $@)
	@$(CC) $(CFLAGS) -msse4.2 -c $< -o $@.raw.o
	@objcopy --redefine-syms=engine/redefine.syms $@.raw.o $@

# second copy of the whole library without SSE4.2, every global symbol prefixed with plain_
$(OUT)/plainobj/%.o: $(REPO)/src/%.c $(OUT)/.fresh
	@mkdir -p $(dir $@)
	@$(CC) $(filter-out $(COV),$(CFLAGS)) -mno-sse4.2 -c $< -o $@
$(OUT)/plain.o: $(patsubst ./%.c,$(OUT)/plainobj/%.o,$(SRCS))
	@ld -r -o $(OUT)/plain.raw.o $^
	@nm -g --defined-only $(OUT)/plain.raw.o | awk 'NF>=3 && $$2 !~ /[UWwVv]/ && $$3 !~ /^(__asan|asan|__sanitizer|__odr_asan)/ {print $$3 " plain_" $$3}' | sort -u > $(OUT)/plain.syms
	@nm -g --defined-only $(OUT)/plain.raw.o | awk '$$3 ~ /^__odr_asan/ {print $$3 " plain_" $$3}' | sort -u >> $(OUT)/plain.syms
	@objcopy --redefine-syms=$(OUT)/plain.syms $(OUT)/plain.raw.o $(OUT)/plain.mid.o
	@objcopy --redefine-syms=engine/redefine.syms $(OUT)/plain.mid.o $@

$(OUT)/capi.o: harness/capi.c $(OUT)/.fresh
	@$(CC) -std=gnu2x -g1 -O1 -w $(SAN) -I$(REPO)/src -c $< -o $@
$(OUT)/srv.o: harness/srv.c $(OUT)/.fresh
	@$(CC) -std=gnu2x -g1 -O1 -w $(SAN) -I$(REPO)/src -c $< -o $@
$(OUT)/harness.o: $(HARNESS) $(OUT)/.fresh
	@$(CXX) $(CXXFLAGS) -c $< -o $@
$(OUT)/vx.o: engine/vx.cc $(OUT)/.fresh
	@$(CXX) -std=c++20 -g1 -O2 -Wall $(SAN) -Iengine -c $< -o $@
$(OUT)/shim.o: engine/shim.cc $(OUT)/.fresh
	@$(CXX) -std=c++20 -g1 -O2 -Wall $(SAN) -Iengine -c $< -o $@
$(OUT)/check: $(OBJS) $(PLAIN) $(SRV) $(OUT)/capi.o $(OUT)/harness.o $(OUT)/vx.o $(OUT)/shim.o
	@$(CXX) $(SAN) -o $@ $^ -lssl -lcrypto -lpthread
