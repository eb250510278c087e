#pragma once
// I2C is not used by Spine
