#pragma once
namespace axi_interconnect { class AXI_Router_AXI4 { public: void init() {} }; }
