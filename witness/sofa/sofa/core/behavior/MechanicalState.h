#pragma once
namespace sofa::core::behavior { template <class T> class MechanicalState { public: virtual ~MechanicalState() = default; }; }
