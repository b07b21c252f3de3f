// Builds a bare Simulation instance for harnesses: raw zeroed storage with the members
// the exercised functions use constructed, bypassing the factory-driven constructor.
#pragma once
#include "sst_config.h"
#include "sym.h"
#include "sst/core/simulation.h"
#include "sst/core/timeVortex.h"
#include "sst/core/exit.h"
#include "sst/core/clock.h"
#include "sst/core/stopAction.h"
#include "sst/core/impl/timevortex/timeVortexPQ.h"
#include <cstdlib>
#include <new>
#include <thread>
static inline SST::Simulation* mkSim(SST::TimeVortex* tv, SST::SimTime_t now = 0, SST::RankInfo me = SST::RankInfo(0, 0), SST::RankInfo n = SST::RankInfo(1, 1), bool registerThread = true)
{
    using namespace SST;
    Simulation* s = (Simulation*)calloc(1, sizeof(Simulation));
    new (&s->timeVortexType) std::string();
    new (&s->interThreadLatencies) std::vector<SimTime_t>();
    new (&s->compInfoMap) ComponentInfoMap();
    new (&s->clockMap) Simulation::clockMap_t();
    new (&s->interactive_type_) std::string();
    new (&s->interactive_start_) std::string();
    new (&s->interactive_msg_) std::string();
    new (&s->one_shot_manager_) Core::OneShotManager(s);
    new (&s->component_blob_offsets_) std::vector<std::pair<ComponentId_t, uint64_t>>();
    new (&s->tv_sort_) pvt::TimeVortexSort();
    new (&s->output_directory) std::string();
    new (&s->profile_tools) std::map<std::string, SST::Profile::ProfileTool*>();
    new (&s->profiler_map) std::map<std::string, std::vector<std::string>>();
    new (&s->link_restart_tracking) std::map<LinkId_t, Link*>();
    new (&s->event_handler_restart_tracking) std::map<uintptr_t, uintptr_t>();
    s->timeVortex            = tv;
    s->interThreadMinLatency = MAX_SIMTIME_T;
    s->currentSimCycle       = now;
    s->my_rank               = me;
    s->num_ranks             = n;
    s->runMode               = SimulationRunMode::RUN;
    s->next_link_order_tag_  = 1;
    if ( registerThread ) Simulation::instanceMap[std::this_thread::get_id()] = s;
    if ( Simulation::instanceVec_.size() <= me.thread ) Simulation::instanceVec_.resize(me.thread + 1);
    Simulation::instanceVec_[me.thread] = s;
    return s;
}
