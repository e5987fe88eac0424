# Builds the harnesses from $(REPO)'s working tree into $(BUILD).
PKT = $(REPO)/MQTTSNPacket/src
GWS = $(REPO)/MQTTSNGateway/src
SAN = -fsanitize=address -fno-omit-frame-pointer
OPT = -O1 -g -ftrivial-auto-var-init=pattern -w
HCXX = g++ -std=c++17 -O1 -g -w $(SAN)
LIBH = $(wildcard lib/*.h)
GWINC = -I$(GWS) -I$(GWS)/linux -I$(GWS)/linux/udp -I$(PKT)

PKT_O = $(patsubst $(PKT)/%.c,$(BUILD)/pkt/%.o,$(wildcard $(PKT)/*.c))
GW_SRC = $(filter-out %/mainLogmonitor.cpp %/MQTTSNGWLogmonitor.cpp,$(wildcard $(GWS)/*.cpp))
GWL_SRC = $(wildcard $(GWS)/linux/*.cpp) $(wildcard $(GWS)/linux/udp/*.cpp)
GW_H = $(wildcard $(GWS)/*.h $(GWS)/linux/*.h $(GWS)/linux/udp/*.h $(PKT)/*.h)
GW_O = $(patsubst $(GWS)/%.cpp,$(BUILD)/gwo/%.o,$(GW_SRC) $(GWL_SRC))

WRAPS = pthread_create pthread_join pthread_self pthread_detach pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock \
 pthread_mutex_trylock pthread_mutex_unlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait \
 pthread_cond_signal pthread_cond_broadcast sem_init sem_destroy sem_post sem_wait sem_trywait sem_timedwait sem_getvalue \
 sem_open sem_close sem_unlink gettimeofday clock_gettime time sleep usleep nanosleep sched_yield socket bind setsockopt \
 listen accept connect close shutdown fcntl poll select recvfrom recv sendto send read write open getaddrinfo freeaddrinfo \
 shmget shmat shmdt shmctl signal tcsetattr
WRAP = $(addprefix -Wl$(comma)--wrap=,$(WRAPS))
comma = ,

all: $(BUILD)/codec $(BUILD)/gw $(BUILD)/unit $(BUILD)/gwf $(BUILD)/gwd $(BUILD)/unitd $(BUILD)/net_xbee $(BUILD)/net_loralink $(BUILD)/net_udp $(BUILD)/net_udp6 $(BUILD)/net_rfcomm

$(BUILD)/pkt/%.o: $(PKT)/%.c
	@mkdir -p $(@D)
	gcc $(OPT) $(SAN) $(FINE) -c $< -o $@

$(BUILD)/gwo/%.o: $(GWS)/%.cpp
	@mkdir -p $(@D)
	g++ -std=c++11 $(OPT) $(SAN) $(FINE) $(GWINC) -c $< -o $@
	@if nm $@ | grep -q ' T main$$'; then objcopy --redefine-sym main=_Z12gateway_mainiPPc $@; fi

$(BUILD)/lib/%.o: lib/%.cpp $(LIBH)
	@mkdir -p $(@D)
	$(HCXX) -c $< -o $@

$(BUILD)/codec: checks/codec.cpp $(PKT_O) $(LIBH)
	$(HCXX) -I$(PKT) $< $(PKT_O) -o $@

# gw: with address sanitizer; gwf: without, five times as fast
$(BUILD)/chk/gw.o: checks/gw.cpp $(wildcard checks/gw/*.h) $(LIBH)
	@mkdir -p $(@D)
	$(HCXX) -g0 -Ilib -Ichecks/gw -c $< -o $@
$(BUILD)/gw: $(BUILD)/lib/vos.o $(BUILD)/lib/explore.o $(BUILD)/lib/fine.o $(BUILD)/chk/gw.o $(PKT_O) $(GW_O)
	$(HCXX) $^ $(WRAP) -o $@ -lpthread -lssl -lcrypto

# single classes of the gateway
$(BUILD)/chk/unit.o: checks/unit.cpp $(wildcard checks/gw/*.h) $(LIBH) $(GW_H)
	@mkdir -p $(@D)
	$(HCXX) -Ilib -Ichecks/gw $(GWINC) -c $< -o $@
$(BUILD)/unit: $(BUILD)/lib/vos.o $(BUILD)/lib/explore.o $(BUILD)/lib/fine.o $(BUILD)/chk/unit.o $(PKT_O) $(GW_O) $(BUILD)/gwo/MQTTSNGWLogmonitor.o
	$(HCXX) $^ $(WRAP) -o $@ -lpthread -lssl -lcrypto

# the other sensor networks
$(BUILD)/libgw.a: $(GW_O)
	@rm -f $@
	ar rcs $@ $(filter-out %/SensorNetwork.o %/mainGateway.o,$(GW_O))
NETINC = -I$(GWS) -I$(GWS)/linux -I$(GWS)/linux/$* -I$(PKT)
$(BUILD)/net/%.o: $(GWS)/linux/%/SensorNetwork.cpp $(GW_H) $(wildcard $(GWS)/linux/*/*.h)
	@mkdir -p $(@D)
	g++ -std=c++11 $(OPT) -U_FORTIFY_SOURCE $(SAN) $(NETINC) -c $< -o $@
$(BUILD)/chk/net_%.o: checks/net/%.cpp $(wildcard checks/net/*.h) $(wildcard checks/gw/*.h) $(LIBH) $(GW_H) $(wildcard $(GWS)/linux/*/*.h)
	@mkdir -p $(@D)
	$(HCXX) -g0 -Ilib -Ichecks/gw -Ichecks/net $(NETINC) -c $< -o $@
$(BUILD)/net_%: $(BUILD)/chk/net_%.o $(BUILD)/net/%.o $(BUILD)/lib/vos.o $(BUILD)/lib/explore.o $(BUILD)/lib/fine.o $(BUILD)/libgw.a $(PKT_O)
	$(HCXX) $^ $(WRAP) -o $@ -lpthread -lssl -lcrypto $(if $(filter %rfcomm,$@),-lbluetooth)
.PRECIOUS: $(BUILD)/net/%.o $(BUILD)/chk/net_%.o

# the same rules once more in a directory of their own
$(BUILD)/gwf: FORCE
	@$(MAKE) -s -f lib/build.mk REPO=$(REPO) BUILD=$(BUILD)/fast SAN= $(BUILD)/fast/gw
	@cp $(BUILD)/fast/gw $@.new && mv $@.new $@
# with accesses to data as scheduling points
$(BUILD)/gwd: FORCE
	@$(MAKE) -s -f lib/build.mk REPO=$(REPO) BUILD=$(BUILD)/data SAN= FINE="-fsanitize=thread --param tsan-instrument-func-entry-exit=0" $(BUILD)/data/gw $(BUILD)/data/unit
	@cp $(BUILD)/data/gw $@.new && mv $@.new $@
$(BUILD)/unitd: $(BUILD)/gwd
	@cp $(BUILD)/data/unit $@.new && mv $@.new $@
$(BUILD)/unitf: FORCE
	@$(MAKE) -s -f lib/build.mk REPO=$(REPO) BUILD=$(BUILD)/fast SAN= $(BUILD)/fast/unit
	@cp $(BUILD)/fast/unit $@.new && mv $@.new $@
FORCE:
.PHONY: all FORCE
